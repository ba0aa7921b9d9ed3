"""Conjugates computed by minimisation: value, gradient and modes are those of the Fenchel conjugate of function plus quadratic."""
import importlib
import itertools
import warnings
import numpy as np
from mc import ref, prox
from mc.prox import vec, make_quad

S = importlib.import_module("checks.c17_simple")
PROPERTY = "C24"
LEVEL = "model_checking"
RULE = ("every (function, own quadratic, conjugate quadratic, negation) is evaluated at every point of a grid, in every order of the evaluation modes and of "
        "pairs of points; the gradient is decided by the optimality certificate of the defining maximisation, the value by the definition at that maximiser")
ASSUMPTIONS = ["the total quadratic coefficient is positive", "three decimals of agreement are demanded from the iterative solver (2e-4 in the certificate)"]
BOUNDS = {"quick": "9 losses of 2-3 coordinates and all penalties of 2-3 coordinates and 2x2, 6 pairs of quadratics, both signs, 9 points for losses and 27 for penalties of 3 coordinates",
          "thorough": "10 pairs of quadratics, 5 values per coordinate"}
FIT = dict(tol=1e-14, min_its=20)


def units(tier):
    us = [("loss/%d/%d" % (n, k), ("loss", n, k)) for n in (2, 3) for k in range(len(S.losses((n,))))]
    us += [("penalty/%s%s/%s" % p, ("penalty",) + p) for p in S.penalties(tier)]
    return us


def weight(name, args):
    return 5 if args[0] == "loss" else 1


def quads(shape, tier):
    """(own quadratic, quadratic of the conjugate)"""
    a = (.7, vec((1., -1.), shape), vec((0., .5, 1.), shape), 2.)
    b = (1.5, None, None, None)
    c = (.5, vec((.5, 1.), shape), None, 0)
    lin = (0, None, vec((1., 0., -.5), shape), 1.)
    out = [(None, a), (None, b), (c, None), (a, lin), (lin, c), (c, a)]
    if tier == "thorough":
        out += [(b, b), (a, c), (None, (1., 0, 0, 0)), ((0, 0, 0, 3.), a)]
    return out


def run(R, name, args, tier):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()["run_" + args[0]](R, *args[1:], tier=tier)


def show(o):
    return [repr(v) for v in (o.coef, o.center, o.linear_term, o.constant_term)]


def explore(R, key, info, make, points, judge, value):
    """make() -> (conjugate object, the function it was built from, the quadratic given or None); judge(v, x): what is wrong with the maximiser x at v"""
    for negate in (False, True):
        info_ = dict(info, negate=negate)
        R.context = lambda: info_
        R.state()
        with R.guard(key, info_):
            C, f, q = make(negate)
            before = show(f.quadratic), show(q) if q is not None else None, repr(getattr(f, "offset", None)), np.array(f.coefs)
            keep = []
            sign = -1. if negate else 1.
            buf = np.array(points[0], float)
            for i, v in enumerate(points):
                for mode in ("both", "func", "grad") if i % 3 == 0 else ("both", "grad", "func")[i % 3 - 1::2]:
                    p = buf                    # one array for all evaluations, changed in place
                    p[...] = v
                    with R.guard(key, dict(info_, point=v, mode=mode)):
                        out = C.smooth_objective(p, mode=mode)
                        R.trans()
                        val, g = out if mode == "both" else (out, None) if mode == "func" else (None, out)
                        where = dict(info_, point=v, mode=mode)
                        if g is not None:
                            x = sign * np.asarray(g, float)
                            bad = judge(sign * v, x)
                            R.check(not bad, key + ":gradient", lambda: "gradient: %s" % bad, lambda: dict(where, result=g))
                            keep.append((g, np.array(g)))
                        if val is not None:
                            x = np.asarray(C.argmin, float)
                            want = (sign * v * x).sum() - value(x)
                            R.check(np.ndim(val) == 0 and abs(val - want) <= 1e-6 * max(1, abs(want)), key + ":value", lambda: "value %r, should be %r" % (val, want), where)
                            bad = judge(sign * v, x)
                            R.check(not bad, key + ":maximiser", lambda: "the point behind the value: %s" % bad, lambda: dict(where, result=x))
                        R.check(np.array_equal(p, v), key + ":mutates", "the argument was changed", where)
                R.trace()
            try:                                   # a failed evaluation leaves no trace
                C.smooth_objective(np.full(points[0].shape, np.nan))
            except Exception:
                pass
            after = show(f.quadratic), show(q) if q is not None else None, repr(getattr(f, "offset", None)), np.array(f.coefs)
            R.check(before[:3] == after[:3] and np.array_equal(before[3], after[3]), key + ":changes", lambda: "the function or quadratic went from %r to %r" % (before, after), info_)
            R.check(all(np.array_equal(a, b, equal_nan=True) for a, b in keep), key + ":alias", "a gradient returned earlier was changed", info_)
            out = C.smooth_objective(points[-1].copy(), mode="grad")
            bad = judge(sign * points[-1], sign * np.asarray(out, float))
            R.check(not bad, key + ":again", lambda: "after a failed evaluation: %s" % bad, info_)
            R.sample(info_)


def grid(shape, tier):
    n = int(np.prod(shape))
    vals = (-2., 0., 1.5) if tier == "quick" else (-2., -.5, 0., 1., 1.5) if n < 4 else (-2., 0., 1.5)
    pts = [np.array(p).reshape(shape) for p in itertools.product(vals, repeat=n)]
    return pts if len(pts) <= 125 and (tier != "quick" or n < 4) else pts[::4]


def run_loss(R, n, k, tier):
    from regreg.problems.conjugate import conjugate
    ls = S.losses((n,))[k]
    pts = grid((n,), tier)
    if tier == "quick" and n == 3:
        pts = pts[::3]
    for own, q in quads((n,), tier):
        info = dict(loss=ls.name, dimension=n, own=own, quadratic=q)
        specs = [s for s in (own, q) if s is not None]

        def make(negate):
            f = ls.build(**({} if own is None else dict(quadratic=make_quad(own))))
            c = None if q is None else make_quad(q)
            return conjugate(f, c, negate=negate, **FIT), f, c

        def judge(v, x):
            if x.shape != v.shape or not np.all(np.isfinite(x)):
                return "returned %r" % (x,)
            r = v - ls.grad(x) - sum(ref.q_grad(s, x) for s in specs)
            return None if np.abs(r).max() <= 2e-4 * max(1, np.abs(x).max()) else "the maximised function has gradient %r there" % (r.tolist(),)
        explore(R, "loss:%s" % ls.name, info, make, pts, judge, lambda x: ls.val(x) + sum(ref.q_value(s, x) for s in specs))
        R.outcome("loss")


def run_penalty(R, fac, dim, cname, tier):
    from regreg.problems.conjugate import conjugate
    case = prox.find(fac, dim, cname)
    pts = grid(case.shape, tier)
    if tier == "quick" and len(pts) > 9:
        pts = pts[::2]
    for param, (j, (own, q)), off in itertools.product(case.params, enumerate(quads(case.shape, tier)), (None, vec((.5, -1., 2.), case.shape))):
        if tier == "quick" and (off is None) == (j % 2 == 0):
            continue
        info = dict(penalty=case.name, param=param, own=own, quadratic=q, offset=off)
        specs = [s for s in (own, q) if s is not None]

        def make(negate):
            f = S.penalty(case, param, off, own)
            c = None if q is None else make_quad(q)
            return conjugate(f, c, negate=negate), f, c

        def judge(v, x):
            return S.certificate(case, param, off, own, [q], lambda z: -v, x)

        def value(x):
            pv = case.val(param, x if off is None else x - off, 1e-6)
            return sum(ref.q_value(s, x) for s in specs) + (pv if np.isfinite(pv) else 0.)
        explore(R, "penalty:%s" % case.name, info, make, pts, judge, value)
        R.outcome("penalty:%s" % case.kind)
