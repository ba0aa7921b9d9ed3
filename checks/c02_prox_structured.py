from mc import prox

PROPERTY = "C02"
LEVEL = "model_checking"
RULE = ("every (atom, multiplier/bound, offset, own quadratic, proximal quadratic form, point of the grid) in the "
        "stated bounds; the result is decided by the optimality certificate of the defining minimisation problem; a "
        "state is a distinct (atom, parameter, point) and every transition is one call on the real code")
ASSUMPTIONS = ["coordinates, weights, multipliers, bounds and quadratics come from the stated small alphabets",
               "floating point: certificates are compared with a relative tolerance of 2e-7"]
BOUNDS = {"quick": "dimension 2-5, grids of 3-6 values per coordinate (at most 216 points), 4 parameters, 25 configurations",
          "thorough": "dimension 2-5, grids up to 1300 points, 4 parameters, 73 configurations"}


def units(tier):
    if tier == "quick":
        f = [("structured", (2,), 125), ("structured", (3,), 64), ("structured", (4,), 81), ("structured", (5,), 243)]
    else:
        f = [("structured", (2, 3), 216), ("structured", (4,), 1296), ("structured", (5,), 3125)]
    return prox.units_for(f, tier)


def weight(name, args):
    return len(args[3]) ** prox.find(*args[:3]).size


def run(R, name, args, tier):
    prox.run_case(R, prox.find(*args[:3]), args[3], tier)
