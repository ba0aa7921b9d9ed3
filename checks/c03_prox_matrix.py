from mc import prox

PROPERTY = "C03"
LEVEL = "model_checking"
RULE = ("every (atom, multiplier/bound, offset, own quadratic, proximal quadratic form, point of the grid) in the "
        "stated bounds; the result is decided by the optimality certificate of the defining minimisation problem; a "
        "state is a distinct (atom, parameter, point) and every transition is one call on the real code")
ASSUMPTIONS = ["coordinates, weights, multipliers, bounds and quadratics come from the stated small alphabets",
               "floating point: certificates are compared with a relative tolerance of 2e-7"]
BOUNDS = {"quick": "matrices 1x2, 2x1, 2x2, 3x2, 2x3; grids of 2-6 values per entry (at most 81 points; 3x2: 64), 4 parameters, 25 configurations",
          "thorough": "matrices up to 3x3; grids up to 730 points, 4 parameters, 73 configurations"}


def units(tier):
    if tier == "quick":
        f = [("matrix", ((1, 2), (2, 1), (2, 2)), 81), ("matrix", ((3, 2), (2, 3)), 64)]
    else:
        f = [("matrix", ((1, 2), (2, 1), (1, 3), (2, 2)), 256), ("matrix", ((3, 2), (2, 3)), 730),
             ("matrix", ((3, 3),), 512)]
    return prox.units_for(f, tier)


def weight(name, args):
    return len(args[3]) ** prox.find(*args[:3]).size


def run(R, name, args, tier):
    prox.run_case(R, prox.find(*args[:3]), args[3], tier)
