"""Objective values and feasibility of every atom against the definition."""
import numpy as np
from mc import atoms as A, ref, prox, buffers

PROPERTY = "C04"
LEVEL = "model_checking"
RULE = ("every (atom, parameter, offset, own quadratic, point) in bounds, each point also rescaled onto the boundary of "
        "the feasible set and 1% to either side; value, feasibility and both form-independent evaluators are compared "
        "with the definition")
ASSUMPTIONS = ["coordinates and parameters come from the stated alphabets",
               "points closer than the documented relative feasibility tolerance (1e-5) to the boundary, other than on it, are not used",
               "without check_feasibility only the finite part of a value is compared"]
BOUNDS = {"quick": "dimension 1-4 and matrices up to 3x2, at most 125 points per atom",
          "thorough": "dimension 1-5 and matrices up to 3x3, at most 1300 points per atom"}


def factories(tier):
    if tier == "quick":
        return [("basic", (1, 2, 3), 125), ("basic", (4,), 81), ("structured", (2, 3), 64), ("structured", (4,), 81),
                ("structured", (5,), 32),
                ("matrix", ((1, 2), (2, 2)), 81), ("matrix", ((3, 2),), 64)]
    return [("basic", (1, 2, 3), 216), ("basic", (4,), 1296), ("basic", (5,), 1024), ("structured", (2, 3), 216),
            ("structured", (4,), 1296), ("structured", (5,), 1024),
            ("matrix", ((1, 2), (2, 1), (2, 2)), 256), ("matrix", ((3, 2), (2, 3)), 730), ("matrix", ((3, 3),), 512)]


def slow(c, budget):
    """the dual sparse group norms are evaluated by bisection in the library: smaller grids"""
    return A.alphabet_for(c.size, budget // 3 if "sparse_group" in c.name and "dual" in c.name else budget)


def units(tier):
    out = []
    for f, dims, budget in factories(tier):
        for d in dims:
            for c in getattr(A, f)(d):
                out.append(("%s/%s" % (f, c.name), (f, d, c.name, slow(c, budget))))
    return out


def weight(name, args):
    return len(args[3]) ** prox.find(*args[:3]).size * (3 if "sparse_group" in name else 1)


def points(case, param, alphabet):
    """grid points plus, for constrained forms, their projections along rays to the boundary"""
    for y in A.grid(alphabet, case.shape):
        yield y, "grid"
        if case.kind == "bound":
            g = case.pair.g(y)
            if np.isfinite(g) and g > 1e-9 and param > 0:
                yield y * (param / g), "boundary"
                yield y * (0.99 * param / g), "inside"
                yield y * (1.01 * param / g), "outside"
        if case.kind == "simplex" and y.sum() != 0:
            yield y / y.sum(), "scaled"
        if case.kind == "cone":
            if y.size > 1 and case.pair.resid(y) > 1e-3:
                z = y.copy().ravel()
                z[-1] += case.pair.resid(y)          # epigraphs: lift onto the boundary
                yield z.reshape(y.shape), "lifted"


def near(case, param, y):
    """ambiguous with respect to the tolerance of the implementation"""
    m = case.margin(param, y)
    if m is None or m == np.inf:
        return False
    s = ref.scale(y, 0 if param is None else param)
    return 1e-9 * s < m < 1e-3 * s or (param == 0 and case.kind == "bound" and 1e-12 < m < 1e-3)


def close(a, b, s=1.):
    if a == b:
        return True
    try:
        return np.isfinite(a) and np.isfinite(b) and abs(a - b) <= 1e-5 * max(1., abs(b), s)
    except TypeError:
        return False


def number(v):
    return np.ndim(v) == 0 and not isinstance(v, (bool, np.bool_)) and v is not None


def run(R, name, args, tier):
    case = prox.find(*args[:3])
    alphabet = args[3]
    shape = case.shape
    off = prox.vec((0.5, -1., 2.), shape)
    owns = [None, (0, None, prox.vec((1., 0., -0.5), shape), 1.), (0.7, prox.vec((1., -1.), shape),
                                                               prox.vec((0., 0.5, 1.), shape), 2.)]
    combos = [(None, owns[0]), (off, owns[0]), (None, owns[2]), (off, owns[1]), (off, owns[2])]
    key = "value:%s" % case.name
    for param in case.params:
        objs = []
        for o, own in combos:
            kw = {}
            if o is not None:
                kw["offset"] = o.copy()
            if own is not None:
                kw["quadratic"] = prox.make_quad(own)
            with R.guard(key, dict(param=param, offset=o, own=own)):
                objs.append((o, own, case.make(param, **kw)))
        plain = objs[0][2] if objs else None
        n = 0
        for y, how in points(case, param, alphabet):
            n += 1
            if near(case, param, y):
                continue
            want = case.val(param, y)
            R.outcome("%s:%s:%s" % (case.kind, how, "inf" if want == np.inf else ("zero" if want == 0 else "finite")))
            for o, own, atom in objs:
                x = y if o is None else y + o
                quad = 0. if own is None else ref.q_value(own, x)
                info = dict(atom=case.name, param=param, offset=o, own=own, x=x, how=how)
                x0 = x.copy()
                R.trans()
                with R.guard(key, info):
                    got = atom.nonsmooth_objective(x, check_feasibility=True)
                    R.trace()
                    R.check(number(got) and close(got, want + quad), key,
                            lambda: "value %r, definition gives %r" % (got, want + quad), info)
                    if o is None and own is None or how == "grid":
                        got2 = atom.nonsmooth_objective(x)
                        w2 = (0. if case.kind in ("bound", "cone", "simplex") else want) + quad
                        if np.isfinite(w2):
                            R.check(number(got2) and close(got2, w2), key + ":nofeas",
                                    lambda: "value without feasibility check %r, definition gives %r" % (got2, w2), info)
                        got3 = atom.objective(x, check_feasibility=True)
                        R.check(close(got3, want + quad), key + ":objective",
                                lambda: "objective() %r, definition gives %r" % (got3, want + quad), info)
                    if not np.array_equal(x, x0):
                        R.fail(key + ":mutates", "argument modified", info)
            if want != np.inf and want != 0:
                R.sample(dict(atom=case.name, param=param, x=y, value=want))
            if plain is not None and case.kind in ("lagrange", "bound") and hasattr(plain, "seminorm"):
                evaluators(R, case, plain, param, y, key)
        R.state(n)
        call_histories(R, case, param, list(A.grid(alphabet, shape)), off, owns[1])


def call_histories(R, case, param, pts, off, own):
    """every short sequence of evaluations of one penalty, the point living in one array of the caller"""
    calls = [("value", "x", lambda a, x: a.nonsmooth_objective(x, check_feasibility=True)), ("value without feasibility", "x", lambda a, x: a.nonsmooth_objective(x)),
             ("objective", "x", lambda a, x: a.objective(x, check_feasibility=True))]
    if case.kind in ("lagrange", "bound") and "mixed_lasso" not in case.name:
        calls += [("seminorm", "x", lambda a, x: a.seminorm(x, lagrange=2.5, check_feasibility=True)), ("constraint", "x", lambda a, x: a.constraint(x, bound=.7))]
    buffers.explore(R, "calls:%s" % case.name, lambda: case.make(param, offset=off.copy(), quadratic=prox.make_quad(own)), calls,
                    dict(x=[pts[-1], pts[len(pts) // 3]]), dict(atom=case.name, param=param))


def evaluators(R, case, atom, param, y, key):
    """seminorm(x, lagrange=) and constraint(x, bound=) do not depend on the form the atom is in"""
    if "mixed_lasso" in case.name:
        return
    info = dict(atom=case.name, param=param, x=y)
    g = case.pair.g(y)
    with R.guard(key + ":seminorm", info):
        R.trans()
        got = atom.seminorm(y, lagrange=2.5, check_feasibility=True)
        want = 2.5 * g if np.isfinite(g) else np.inf
        R.check(number(got) and close(got, want), key + ":seminorm",
                lambda: "seminorm(lagrange=2.5) = %r, definition gives %r" % (got, want), info)
        for s in (1e-5, 1e5):                         # norms are positively homogeneous
            if np.isfinite(g) and g > 0:
                R.trans()
                got = atom.seminorm(s * y, lagrange=1., check_feasibility=True)
                R.check(number(got) and np.isfinite(got) and abs(got - s * g) <= 1e-4 * s * g, key + ":scale",
                        lambda: "seminorm of the point scaled by %g is %r, definition gives %r" % (s, got, s * g), info)
    for b in (0.7, 3.):
        m = g - b
        s = ref.scale(y)
        if 1e-9 * s < m < 1e-3 * s:
            continue
        with R.guard(key + ":constraint", info):
            R.trans()
            got = atom.constraint(y, bound=b)
            want = 0. if m <= 1e-9 * s else np.inf
            R.check(number(got) and got == want, key + ":constraint",
                    lambda: "constraint(bound=%g) = %r, definition gives %r" % (b, got, want), info)
