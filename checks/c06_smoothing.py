"""Smoothing of nonsmooth terms: value, gradient, Lipschitz constant of the smoothed function."""
import itertools
import numpy as np
from mc import atoms as A, ref, prox, buffers
from mc.prox import vec

PROPERTY = "C06"
LEVEL = "model_checking"
RULE = ("every (atom, parameter, offset, own quadratic, smoothing quadratic, point) in bounds; value and gradient are "
        "decided by the optimality certificate of the infimal convolution that defines the smoothing, every pair of "
        "points by the Lipschitz inequality")
ASSUMPTIONS = ["coordinates, parameters, offsets and quadratics come from the stated alphabets"]
BOUNDS = {"quick": "dimension 1-4 and matrices up to 3x2, at most 64 points per atom and configuration",
          "thorough": "dimension 1-5 and matrices up to 3x2, at most 260 points per atom and configuration"}


def factories(tier):
    if tier == "quick":
        return [("basic", (1, 2, 3), 64), ("structured", (2, 3), 27), ("structured", (4,), 16), ("matrix", ((1, 2), (2, 2)), 27),
                ("matrix", ((3, 2),), 64)]
    return [("basic", (1, 2, 3, 4), 256), ("structured", (2, 3, 4), 256), ("structured", (5,), 243),
            ("matrix", ((1, 2), (2, 1), (2, 2)), 256), ("matrix", ((3, 2), (2, 3)), 64)]


def units(tier):
    return prox.units_for(factories(tier), tier)


def weight(name, args):
    return len(args[3]) ** prox.find(*args[:3]).size * (3 if "sparse_group" in name else 1)


def configs(shape, tier):
    off = vec((0.5, -1., 2.), shape)
    lin = (0, None, vec((1., 0., -0.5), shape), 1.)
    own = (0.7, vec((1., -1.), shape), vec((0., 0.5, 1.), shape), 2.)
    sqs = [(0.5, None, None, 0), (2., vec((0.5,), shape), None, 1.), (1., vec((0., 1.), shape), vec((1., -1.), shape), -0.5)]
    out = [(None, None, s) for s in sqs] + [(off, None, sqs[0]), (off, lin, sqs[2]), (None, lin, sqs[0]), (off, own, sqs[0]),
                                            (None, own, sqs[2])]
    if tier == "thorough":
        out = [(o, w, s) for o in (None, off) for w in (None, lin, own) for s in sqs]
    return out


def run(R, name, args, tier):
    case = prox.find(*args[:3])
    shape = case.shape
    pts = list(A.grid(args[3], shape))
    key = "smoothed:%s" % case.name
    for param in case.params:
        for o, own, sq in configs(shape, tier):
            if own is not None and own[0] and not case.prox:
                continue
            kw = {}
            if o is not None:
                kw["offset"] = o.copy()
            if own is not None:
                kw["quadratic"] = prox.make_quad(own)
            info = dict(atom=case.name, param=param, offset=o, own=own, smoothing=sq)
            sm = None
            q = prox.make_quad(sq)
            with R.guard(key, info):
                atom = case.make(param, **kw)
                before = repr(atom.quadratic), repr(q), repr(atom.offset)
                sm = atom.smoothed(q)
                R.check((repr(atom.quadratic), repr(q), repr(atom.offset)) == before, key + ":mutates",
                        "smoothing changed the atom or the smoothing quadratic", info)
            if sm is None:
                continue
            grads = []
            for x in pts:
                one(R, case, param, o, own, sq, sm, x, key, info, grads)
            R.state(len(pts))
            if len(grads) == len(pts):
                pairs(R, pts, grads, sm, sq, own, key, info)
        call_histories(R, case, param, pts, key, tier)
        if case.prox and param == case.params[-1]:
            tilted(R, case, param, pts, key)
        bad = case.make(param)
        for zero in ((0, None, None, 0), (None, None, None, None)):
            R.trans()
            try:
                bad.smoothed(prox.make_quad(zero))
                R.fail(key + ":zero", "smoothing without a quadratic term was accepted", dict(param=param))
            except ValueError:
                R.outcome("zero smoothing rejected")


def call_histories(R, case, param, pts, key, tier):
    """every short sequence of evaluations of one smoothed function, the point living in one array of the caller"""
    off = vec((0.5, -1., 2.), case.shape)
    calls = [(m, "x", lambda s, x, m=m: s.smooth_objective(x, m)) for m in ("both", "func", "grad")]
    calls += [("objective", "x", lambda s, x: s.objective(x)), ("attribute grad", "x", lambda s, x: (s.smooth_objective(x, "func"), s.grad))]
    slow = "sparse_group" in case.name or tier == "quick" and case.size > 4
    buffers.explore(R, key + ":calls", lambda: case.make(param, offset=off.copy()).smoothed(prox.make_quad((1., vec((0., 1.), case.shape), None, -.5))),
                    calls[:3] if slow else calls, dict(x=[pts[-1], pts[len(pts) // 3]]), dict(atom=case.name, param=param), fresh=not slow)


def tilted(R, case, param, pts, key):
    """conjugate of (conjugate of a strongly convex atom) + <gamma, .> + a: the atom shifted by gamma, minus a"""
    shape = case.shape
    own = (0.7, vec((1., -1.), shape), vec((0., 0.5, 1.), shape), 2.)
    off, gamma, a = vec((0.5, -1., 2.), shape), vec((1., -0.5, 0.25), shape), 1.5
    info = dict(atom=case.name, param=param, own=own, offset=off, gamma=gamma, constant=a)
    with R.guard(key + ":tilted", info):
        c = case.make(param, offset=off.copy(), quadratic=prox.make_quad(own)).conjugate
        c.quadratic = prox.make_quad((0, None, gamma.copy(), a))
        b = c.conjugate
        for x in pts:
            v = b.nonsmooth_objective(x, check_feasibility=True)
            w = x - gamma
            y = w - off
            want = ref.q_value(own, w) - a + case.val(param, y, 1e-6)
            R.trans()
            R.check((v == want) or abs(v - want) <= 1e-9 * max(1, abs(want)) or abs(v) == np.inf and case.val(param, y, -1e-6) == np.inf
                    or np.isfinite(v) and case.val(param, y, 1e-6) < np.inf and abs(v - want) <= 1e-7 * max(1, abs(want)), key + ":tilted",
                    lambda: "value %r of the double conjugate, definition %r" % (v, want), lambda: dict(info, x=x))
            spec = (0.5, x, None, 0)
            u = b.proximal(prox.make_quad(spec))
            bad = case.ok(param, u - gamma - off, -ref.q_grad(spec, u) - ref.q_grad(own, u - gamma))
            R.check(not bad, key + ":tilted", lambda: "prox of the double conjugate: %s" % bad, lambda: dict(info, x=x))


def one(R, case, param, o, own, sq, sm, x, key, info, grads):
    info = dict(info, x=x)
    x0 = x.copy()
    with R.guard(key, info):
        R.trans(3)
        R.context = (case.name, param, x.tolist())
        val, u = sm.smooth_objective(x, 'both')
        f = sm.smooth_objective(x, 'func')
        g = sm.smooth_objective(x, 'grad')
        grads.append((u, np.array(u)))
        w = x - ref.q_grad(sq, u)
        y = w if o is None else w - o
        v = u if own is None else u - ref.q_grad(own, w)
        bad = case.ok(param, y, v)
        R.trace()
        R.outcome("%s:%s" % (case.kind, "zero" if not np.any(np.abs(u) > 1e-9) else "active"))
        R.check(not bad, key, lambda: "gradient of the smoothed function: %s" % bad, dict(info, grad=u))
        base = case.val(param, y, 1e-6)
        if not np.isfinite(base):
            base = 0.
        want = base + (0. if own is None else ref.q_value(own, w)) + float(np.sum((x - w) * u)) - ref.q_value(sq, u)
        R.check(np.ndim(val) == 0 and abs(val - want) <= 2e-5 * max(1, abs(want)), key,
                lambda: "smoothed value %r, definition gives %r" % (val, want), info)
        R.check(abs(f - val) <= 1e-9 * max(1, abs(val)) and np.allclose(g, u, atol=1e-9), key + ":modes", "modes disagree", info)
        R.check(np.array_equal(x, x0), key + ":mutates", "argument modified", info)
        R.sample(info)


def pairs(R, pts, grads, sm, sq, own, key, info):
    for (live, kept), x in zip(grads, pts):
        R.check(np.array_equal(live, kept), key + ":alias", "a gradient returned earlier changed later", dict(info, x=x))
    for mode in ("grad", "both"):                      # consecutive calls in one mode: the caller owns every result
        with R.guard(key + ":alias", info):
            res = [sm.smooth_objective(x, mode) for x in pts[:4]]
            res = [r[1] if mode == "both" else r for r in res]
            R.trans(len(res))
            R.check(all(np.allclose(r, kept, atol=1e-9) for r, (_, kept) in zip(res, grads)), key + ":alias",
                    "a gradient (mode %s) returned earlier changed later" % mode, info)
    L = 1. / sq[0]
    with R.guard(key + ":lipschitz", info):
        lip = sm.lipschitz
        R.check(own is not None and own[0] or abs(lip - L) <= 1e-12 * L, key + ":lipschitz",
                lambda: "reported Lipschitz constant %r, 1/eps is %r" % (lip, L), info)
    G = np.array([g.ravel() for _, g in grads])
    X = np.array([x.ravel() for x in pts])
    for i in range(len(pts)):
        d = np.sqrt(((G - G[i]) ** 2).sum(1)) - L * np.sqrt(((X - X[i]) ** 2).sum(1))
        R.trans(len(pts))
        if d.max() > 1e-6 * max(1., np.abs(G).max()):
            R.fail(key + ":lipschitz", "gradient is not 1/eps-Lipschitz (excess %g)" % d.max(), dict(info, x=X[i], y=X[d.argmax()]))
            break
