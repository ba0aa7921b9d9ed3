"""Convex conjugates: value, biconjugate and proximal map of the conjugate of every atom."""
import numpy as np
from mc import buffers, atoms as A, ref, prox
from mc.prox import vec

PROPERTY = "C05"
LEVEL = "model_checking"
RULE = ("every (atom, parameter, offset, own quadratic, dual point) in bounds, dual points also scaled onto, inside and "
        "outside the boundary of the conjugate's domain; conjugate value, biconjugate value, proximal map of the "
        "conjugate, and (strongly convex case) value and gradient of the smooth conjugate decided by its optimality certificate")
ASSUMPTIONS = ["coordinates, parameters, offsets and quadratics come from the stated alphabets",
               "points closer than the feasibility tolerance to a boundary, other than on it, are not used"]
BOUNDS = {"quick": "dimension 1-4 and matrices up to 3x2, at most 27 points per atom and configuration",
          "thorough": "dimension 1-5 and matrices up to 3x3, at most 260 points per atom and configuration"}


def factories(tier):
    if tier == "quick":
        return [("basic", (1, 2, 3), 27), ("structured", (2, 3), 27), ("structured", (4,), 16), ("matrix", ((1, 2), (2, 2)), 27),
                ("matrix", ((3, 2),), 64)]
    return [("basic", (1, 2, 3, 4), 256), ("structured", (2, 3, 4), 256), ("structured", (5,), 243),
            ("matrix", ((1, 2), (2, 1), (2, 2)), 256), ("matrix", ((3, 2), (2, 3)), 64)]


def units(tier):
    return [("%s/%s" % (f, c.name), (f, d, c.name, A.alphabet_for(c.size, budget // 3 if "sparse_group" in c.name else budget)))
            for f, dims, budget in factories(tier) for d in dims for c in getattr(A, f)(d)]


def weight(name, args):
    return len(args[3]) ** prox.find(*args[:3]).size * (5 if "sparse_group" in name else 1)


def owns(shape):
    l = vec((1., 0., -0.5), shape)
    return [None, (0, None, l, 1.), (0, vec((1., 2.), shape), None, -2.), (0.7, vec((1., -1.), shape), vec((0., 0.5, 1.), shape), 2.),
            (2., None, None, None)]


def dual_points(case, param, alphabet):
    """points for the argument of the conjugate, with their position relative to its domain"""
    for u in A.grid(alphabet, case.shape):
        yield u, "grid"
        if case.kind == "lagrange":
            g = case.pair.gauge(u)
            if np.isfinite(g) and g > 1e-9 and param > 0:
                yield u * (param / g), "boundary"
                yield u * (1.01 * param / g), "outside"
        elif case.kind == "maximum" and u.sum() != 0:
            yield u / u.sum(), "scaled"


def near_domain(case, param, u):
    s = ref.scale(u, 0 if param is None else param)
    if case.kind == "lagrange":
        m = case.pair.gauge(u) - param
    elif case.kind == "cone":
        m = case.pair.polar_resid(u)
    elif case.kind == "maximum":
        m = ref.simplex_dist(u)
    else:
        return False
    return 1e-9 * s < m < 1e-3 * s or (param == 0 and 1e-12 < m < 1e-3)


def close(a, b, s=1.):
    if a == b:
        return True
    return bool(np.ndim(a) == 0 and a is not None and np.isfinite(a) and np.isfinite(b) and
                abs(a - b) <= 2e-5 * max(1., abs(b), s))


def run(R, name, args, tier):
    case = prox.find(*args[:3])
    alphabet, shape = args[3], case.shape
    off = vec((0.5, -1., 2.), shape)
    key = "conj:%s" % case.name
    n = 0
    for param in case.params:
        for o in (None, off):
            for j, own in enumerate(owns(shape)):
                if tier == "quick" and o is None and j not in (0, 1, 3) or \
                        tier == "quick" and case.size >= 5 and (o is None) != (j in (0, 4)):
                    continue
                kw = {}
                if o is not None:
                    kw["offset"] = o.copy()
                if own is not None:
                    kw["quadratic"] = prox.make_quad(own)
                info = dict(atom=case.name, param=param, offset=o, own=own)
                atom = conj = None
                with R.guard(key, info):
                    atom = case.make(param, **kw)
                    if own is not None and own[0] and not case.prox:
                        continue
                    conj = atom.conjugate
                if conj is None:
                    continue
                R.trans()
                if own is not None and own[0]:
                    n += smooth_side(R, case, param, o, own, conj, alphabet, key, info)
                else:
                    n += plain_side(R, case, param, o, own, atom, conj, alphabet, key, info, tier)
    R.state(n)
    call_histories(R, case, case.params[-1], off, alphabet, tier)


def call_histories(R, case, param, off, alphabet, tier):
    """the conjugate, its argument living in one array of the caller"""
    from regreg.identity_quadratic import identity_quadratic
    pts = [u for u, how in dual_points(case, param, alphabet)]
    args = dict(u=[pts[-1], pts[len(pts) // 3]])
    for own in (None, (0, None, vec((1., 0., -0.5), case.shape), 1.), (.7, None, vec((0., .5, 1.), case.shape), 2.)):
        slow = "sparse_group" in case.name and tier == "quick"
        if own is not None and own[0] and not case.prox or slow and own is None or tier == "quick" and own is not None and not own[0]:
            continue
        make = lambda: case.make(param, offset=off.copy(), **({} if own is None else dict(quadratic=prox.make_quad(own)))).conjugate
        if own is not None and own[0]:
            calls = [("value", "u", lambda c, u: c.smooth_objective(u, "func")), ("gradient", "u", lambda c, u: c.smooth_objective(u, "grad")), ("both", "u", lambda c, u: c.smooth_objective(u, "both"))]
        else:
            calls = [("value", "u", lambda c, u: c.nonsmooth_objective(u, check_feasibility=True))]
            if case.prox:
                calls.append(("proximal map", "u", lambda c, u: c.proximal(identity_quadratic(1.5, u, 0, 0))))
        buffers.explore(R, "calls:%s" % case.name, make, calls[1:] if slow else calls, args, dict(atom=case.name, param=param, own=own), depth=2, fresh="sparse_group" not in case.name)
    R.outcome("call history")


def plain_side(R, case, param, o, own, atom, conj, alphabet, key, info, tier):
    shape = case.shape
    l = np.zeros(shape)
    c = 0.
    if own is not None:
        if own[2] is not None:
            l = own[2]
        c = own[3] or 0.
    n = 0
    bi = None
    with R.guard(key + ":biconjugate", info):
        bi = conj.conjugate
    lin = None
    with R.guard(key + ":dual", info):
        lin, dual = atom.dual
        R.trans()
    for u, how in dual_points(case, param, alphabet):
        if near_domain(case, param, u):
            continue
        n += 1
        x = u + l
        want = case.conjval(param, u)
        if np.isfinite(want) and o is not None:
            want += float(np.sum(o * u))
        want -= c
        R.outcome("%s:%s:%s" % (case.kind, how, "inf" if want == np.inf else "finite"))
        with R.guard(key, dict(info, x=x)):
            R.trans()
            got = conj.nonsmooth_objective(x, check_feasibility=True)
            R.trace()
            R.check(close(got, want), key, lambda: "conjugate value %r, definition gives %r" % (got, want), dict(info, x=x, how=how))
            if how == "grid" and lin is not None:
                R.check(np.array_equal(lin.linear_map(x), x) and close(dual.nonsmooth_objective(x, check_feasibility=True), want),
                        key + ":dual", "the dual pair differs from (identity, conjugate)", dict(info, x=x))
    # biconjugate
    for y in A.grid(alphabet, shape):
        m = case.margin(param, y)
        s = ref.scale(y, 0 if param is None else param)
        if m is not None and m != np.inf and (1e-9 * s < m < 1e-3 * s or (param == 0 and 1e-12 < m < 1e-3)):
            continue
        if bi is None:
            break
        x = y if o is None else y + o
        want = case.val(param, y) + float(np.sum(l * x)) + c
        R.trans()
        with R.guard(key + ":biconjugate", dict(info, x=x)):
            got = bi.nonsmooth_objective(x, check_feasibility=True)
            R.check(close(got, want), key + ":biconjugate", lambda: "biconjugate value %r, original has %r" % (got, want), dict(info, x=x))
    # proximal map of the conjugate: v minimises q + f*  iff  -grad q(v) is a subgradient of f* at v
    if case.prox:
        for spec in ((0.5, None, None, 0), (2., vec((0.5,), shape), vec((1., -1.), shape), 0)):
            for z in A.grid(alphabet, shape):
                R.trans()
                with R.guard(key + ":prox", dict(info, z=z)):
                    sp = (spec[0], z if spec[1] is None else spec[1] + z, spec[2], 0)
                    v = conj.proximal(prox.make_quad(sp))
                    x = -ref.q_grad(sp, v)            # must lie in the subdifferential of f* at v
                    bad = case.ok(param, x if o is None else x - o, v - l)
                    R.trace()
                    R.check(not bad, key + ":prox", lambda: "prox of the conjugate: %s" % bad, dict(info, z=z, result=v, q=sp))
    return n


def smooth_side(R, case, param, o, own, conj, alphabet, key, info):
    """f = f0(. - offset) + own with own strongly convex: f* is smooth with gradient argmax <x, z> - f(z)"""
    n = 0
    key = key + ":smooth"
    with R.guard(key, info):
        back = conj.conjugate
        x = vec((0.25, -0.5), case.shape)
    for x in A.grid(alphabet, case.shape):
        n += 1
        i = dict(info, x=x)
        x0 = x.copy()
        with R.guard(key, i):
            R.trans(3)
            val, g = conj.smooth_objective(x, 'both')
            g = np.array(g)
            v2 = conj.smooth_objective(x, 'func')
            g2 = np.array(conj.smooth_objective(x, 'grad'))
            R.trace()
            bad = case.ok(param, g if o is None else g - o, x - ref.q_grad(own, g))
            R.check(not bad, key, lambda: "gradient of the conjugate is not the maximiser: %s" % bad, dict(i, grad=g))
            base = case.val(param, g if o is None else g - o, 1e-6)
            want = float(np.sum(x * g)) - (base if np.isfinite(base) else 0.) - ref.q_value(own, g)
            R.check(close(val, want), key, lambda: "conjugate value %r, at its maximiser %r" % (val, want), i)
            R.check(close(v2, val) and np.allclose(g, g2, atol=1e-9), key + ":modes", "modes disagree", i)
            R.check(np.array_equal(x, x0), key + ":mutates", "argument modified", i)
            if o is None or True:
                R.check(close(back.objective(g), (base if np.isfinite(base) else 0.) + ref.q_value(own, g)), key + ":biconjugate",
                        "biconjugate differs from the original", i)
    return n
