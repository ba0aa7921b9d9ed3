"""All short histories of one penalty object and its copies: setters, copies, duals, caller-side mutation."""
import itertools
from copy import copy
import numpy as np
from mc import atoms as A, ref, prox
from mc.prox import vec

PROPERTY = "C07"
LEVEL = "model_checking"
RULE = ("every sequence of operations (set multiplier/bound, set/reset offset, set quadratic, copy, switch between the "
        "copies, take conjugate, smooth, mutate a returned array) up to the depth, from every initial configuration; after the "
        "sequence every live object is compared with the abstract state (parameter, offset, quadratic): value, prox "
        "certificate, conjugate value and parameter getters")
ASSUMPTIONS = ["operation arguments come from the stated small sets"]
BOUNDS = {"quick": "all sequences of length <= 2 over 14 operations and of length 3 over 8 of them, one instance of every atom; group weights: length <= 2 over 10 operations for 4 penalties",
          "thorough": "all sequences of length <= 3 (14 operations), instances in two dimensions; group weights: length <= 3 over 10 operations"}

OPS = ("param-a", "param-b", "offset-a", "offset-b", "offset-inplace", "offset-zero", "offset-none", "quad-lin", "quad-strong", "quad-none",
       "copy", "switch", "dualize", "scribble")
CORE = ("param-a", "offset-inplace", "offset-zero", "quad-lin", "quad-strong", "copy", "switch", "dualize")
DIMS = {"quick": [("basic", (2,)), ("structured", (3,)), ("matrix", ((2, 2),))],
        "thorough": [("basic", (1, 3)), ("structured", (2, 3)), ("matrix", ((2, 2), (3, 2)))]}


def units(tier):
    out, seen = [], set()
    for f, dims in DIMS[tier]:
        for d in dims:
            for c in getattr(A, f)(d):
                fam = (f, d, c.name.split("[")[0], c.kind) if f == "structured" or "sparse_group" in c.name else c.name
                if c.prox and (tier == "thorough" or fam not in seen):
                    seen.add(fam)
                    out.append(("%s/%s" % (f, c.name), (f, d, c.name)))
    return out + [("weights/%s/%s" % (c, k), ("weights", c, k)) for c in WEIGHTED for k in ("lagrange", "bound")
                  if not (c == "sparse_group_lasso" and k == "bound" or c == "sparse_group_lasso_dual" and k == "lagrange")]    # no proximal map


def weight(name, args):
    return 5 if "sparse_group" in name else 1


class Live(object):
    """a real object with its abstract state"""

    def __init__(self, atom, param, off, own):
        self.atom, self.param, self.off, self.own = atom, param, off, own


def quad(own):
    from regreg.identity_quadratic import identity_quadratic
    return identity_quadratic(0, 0, 0, 0) if own is None else prox.make_quad(own)


def initial(case):
    lin = (0, None, vec((1., 0., -0.5), case.shape), 1.)
    for off, own in ((None, None), (vec((0.5, -1., 2.), case.shape), lin)):
        yield off, own


def build(case, off, own):
    kw = {}
    if off is not None:
        kw["offset"] = off.copy()
    if own is not None:
        kw["quadratic"] = quad(own)
    param = case.params[-1]
    return Live(case.make(param, **kw), param, off, own)


def apply(case, objs, cur, op):
    """one transition on the real object and on the abstract state"""
    o = objs[cur]
    shape = case.shape
    if op.startswith("param"):
        if case.kind not in ("lagrange", "bound"):
            return cur
        v = case.params[1] if op == "param-a" else case.params[2]
        setattr(o.atom, case.kind, v)
        o.param = v
    elif op == "offset-a":
        o.off = vec((1., 0., -1.5), shape)
        o.atom.offset = o.off.copy()
    elif op == "offset-b":
        o.off = vec((-0.5,), shape)
        o.atom.offset = o.off.copy()
    elif op == "offset-inplace":
        if o.atom.offset is not None and o.off is not None:
            o.atom.offset -= 1.5                  # the object owns its offset, and no other object shares it
            o.off = o.off - 1.5
    elif op == "offset-zero":
        o.off = np.zeros(shape)
        o.atom.offset = o.off.copy()
    elif op == "offset-none":
        o.off = None
        o.atom.offset = None
    elif op == "quad-lin":
        o.own = (0, None, vec((-1., 2.), shape), 0.5)
        o.atom.quadratic = quad(o.own)
    elif op == "quad-strong":
        o.own = (0.7, vec((1., -1.), shape), vec((0., 0.5, 1.), shape), 2.)
        o.atom.quadratic = quad(o.own)
    elif op == "quad-none":
        o.own = None
        o.atom.quadratic = quad(None)
    elif op == "copy":
        if len(objs) < 3:
            objs.append(Live(copy(o.atom), o.param, o.off, o.own))
            return len(objs) - 1
    elif op == "switch":
        return (cur + 1) % len(objs)
    elif op == "dualize":
        c = o.atom.conjugate
        s = o.atom.smoothed(quad((0.5, None, None, 0)))
        s.smooth_objective(np.ones(shape), 'both')
        if o.own is None or not o.own[0]:
            c.offset = np.ones(shape)             # using the dual must not disturb the primal
            c.quadratic = quad((3., None, None, 0))
            c.proximal(quad((1., np.ones(shape), None, 0)))
            if case.kind == "lagrange":
                c.bound = 17.
            elif case.kind == "bound":
                c.lagrange = 17.
    elif op == "scribble":
        for spec in ((1., vec((2., -1., 0.5), shape), None, 0), (0.5, np.zeros(shape), None, 0)):
            r = o.atom.proximal(quad(spec))
            r[...] = 1e3                          # the caller owns what it got
        r = o.atom.solve(quad((1., vec((2., -1.), shape), None, 0)))
        r[...] = -1e3
    return cur


def observe(R, case, o, key, info):
    atom, shape = o.atom, case.shape
    for i, z in enumerate((vec((2., -1., 0.5), shape), vec((0.25, 1.), shape), np.zeros(shape))):
        spec = (0.5, z, None, 0)
        q = quad(spec)
        x = np.array(atom.proximal(q))
        R.trace()
        if x.shape != shape or not np.all(np.isfinite(x)):
            R.fail(key, "prox result %r" % x.tolist(), info)
            return
        v = -ref.q_grad(spec, x)
        if o.own is not None:
            v = v - ref.q_grad(o.own, x)
        bad = case.ok(o.param, x if o.off is None else x - o.off, v)
        R.check(not bad, key + ":prox", lambda: bad, lambda: dict(info, z=z, result=x))
        y = x if o.off is None else x - o.off
        want = case.val(o.param, y, 1e-6) + (0. if o.own is None else ref.q_value(o.own, x))
        got = atom.nonsmooth_objective(x, check_feasibility=True)
        R.check(np.ndim(got) == 0 and np.isfinite(got) and abs(got - want) <= 1e-5 * max(1, abs(want)), key + ":value",
                lambda: "value %r, state says %r" % (got, want), lambda: dict(info, x=x))
        # the multiplier used by the proximal step: v is a subgradient, so Fenchel equality pins the conjugate
        if i == 0 and (o.own is None or not o.own[0]):
            l = 0. if o.own is None else o.own[2]
            c = 0. if o.own is None else o.own[3]
            u = -ref.q_grad(spec, x)
            w = float(np.sum(u * x)) - want
            got = atom.conjugate.nonsmooth_objective(u)
            R.check(np.ndim(got) == 0 and abs(got - w) <= 2e-5 * max(1, abs(w)), key + ":conjugate",
                    lambda: "conjugate %r at a subgradient, Fenchel equality gives %r" % (got, w), lambda: dict(info, u=u))
            # and the conjugate's domain / scale away from it
            k = case.conjval(o.param, 1.5 * (u - l) + 0.1)
            if k != np.inf:
                w2 = k + (0. if o.off is None else float(np.sum(o.off * (1.5 * (u - l) + 0.1)))) - c
                g2 = atom.conjugate.nonsmooth_objective(1.5 * (u - l) + 0.1 + l, check_feasibility=True)
                R.check(abs(g2 - w2) <= 2e-5 * max(1, abs(w2)), key + ":conjugate", lambda: "conjugate %r, definition %r" % (g2, w2), info)
    if case.kind in ("lagrange", "bound"):
        R.check(getattr(atom, case.kind) == o.param, key + ":getter", "%s reads %r" % (case.kind, getattr(atom, case.kind)), info)
    off = atom.offset
    R.check((off is None or not np.any(off)) if o.off is None or not np.any(o.off) else off is not None and np.array_equal(off, o.off),
            key + ":offset", lambda: "offset reads %r, was set to %r" % (off, o.off), info)


# group weights: the abstract state is a table of weights, a freshly built penalty with it is the reference

WEIGHTED = ("group_lasso", "group_lasso_dual", "sparse_group_lasso", "sparse_group_lasso_dual")
LABELS = [(0, 0, 1), (2, 1, 2, 5)]
WOPS = ("first-a", "first-b", "last", "zero", "copy", "switch", "dual", "evaluate", "offset", "double-dual")


def fresh(cls, kind, labels, w, off):
    import regreg.api as rr
    from regreg.atoms import sparse_group_lasso as sg, group_lasso as gl
    k = getattr(sg if cls.startswith("sparse") else gl, cls)
    args = (np.array(labels),) + ((np.linspace(.5, 1.5, len(labels)),) if cls.startswith("sparse") else ())
    return k(*args, weights=dict(w), offset=None if off is None else off.copy(), **{kind: .8})


def readings(atom, kind):
    """everything the weights decide, at three points"""
    out = []
    for x in np.array([[2., -1., .5, 1.], [.25, 1., -3., 0.], [-1., 0., .5, .75]])[:, :atom.shape[0]]:
        out += [atom.seminorm(x.copy(), lagrange=1.), atom.nonsmooth_objective(x, check_feasibility=True), atom.conjugate.seminorm(.3 * x, lagrange=1.),
                atom.conjugate.nonsmooth_objective(.3 * x, check_feasibility=True)]
        out += list(atom.terms(x)) + list(atom.proximal(quad((1.5, x.copy(), None, 0))))
        out.append(atom.smoothed(quad((.7, None, None, 0))).smooth_objective(x, "func") if atom.offset is None else 0.)
    return np.array(out)


def weights(R, cls, kind, tier):
    for labels in LABELS:
        ids = sorted(set(labels))
        w0 = dict((g, 1. + .5 * i) for i, g in enumerate(ids))
        for seq in itertools.chain(*[itertools.product(WOPS, repeat=n) for n in range(1, (3 if tier == "quick" else 4))]):
            info = dict(penalty=cls, form=kind, groups=list(labels), operations=list(seq))
            key = "weights:%s.%s" % (cls, kind)
            R.context = lambda: info
            R.state()
            with R.guard(key, info):
                live, cur = [[cls, kind, fresh(cls, kind, labels, w0, None), dict(w0), None]], 0
                for op in seq:
                    c, k, a, w, o = live[cur]
                    R.trans()
                    if op.startswith("first") or op in ("last", "zero"):
                        g, v = {"first-a": (ids[0], 2.5), "first-b": (ids[0], .25), "last": (ids[-1], 3.), "zero": (ids[-1], 0.)}[op]
                        a.set_weight(g, v)
                        w[g] = v
                    elif op == "copy":
                        live.append([c, k, copy(a), dict(w), o])
                        cur = len(live) - 1
                    elif op == "switch":
                        cur = (cur + 1) % len(live)
                    elif op == "dual":      # it stays as it is when the weights of the original change
                        b = a.conjugate
                        live.append([type(b).__name__, "bound" if k == "lagrange" else "lagrange", b, dict(w), None])
                        if a.offset is not None:
                            live.pop()
                    elif op == "evaluate":
                        readings(a, k)
                    elif op == "offset":
                        live[cur][4] = np.resize([1., -.5], len(labels))
                        a.offset = live[cur][4].copy()
                    elif op == "double-dual":
                        live.append([c, k, a.conjugate.conjugate, dict(w), o])
                for c, k, a, w, o in live:
                    R.trace()
                    got, want = readings(a, k), readings(fresh(c, k, labels, w, o), k)
                    R.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-7, atol=1e-9), key, lambda: "readings %s, those of a new penalty with the weights %r are %s" % (
                        got.tolist(), w, want.tolist()), lambda: dict(info, readings_of=c))
                    R.check(dict(a.weights) == w, key + ":table", lambda: "the weights read %r, were set to %r" % (dict(a.weights), w), info)
                R.outcome("weights")
        R.sample(info)


def run(R, name, args, tier):
    if args[0] == "weights":
        return weights(R, args[1], args[2], tier)
    case = prox.find(*args[:3])
    key = "history:%s" % case.name
    for off, own in initial(case):
        for n in range(4):
            for seq in itertools.product(OPS if tier == "thorough" or n < 3 else CORE, repeat=n):
                info = dict(atom=case.name, initial=[off, own], ops=list(seq))
                R.context = (case.name, seq)
                with R.guard(key, info):
                    objs, cur = [build(case, off, own)], 0
                    for op in seq:
                        cur = apply(case, objs, cur, op)
                        R.trans()
                    R.state()
                    R.outcome("objects=%d own=%s offset=%s" % (len(objs), objs[cur].own and ("strong" if objs[cur].own[0] else "linear"),
                                                               objs[cur].off is not None))
                    for o in objs:
                        observe(R, case, o, key, info)
                if n == 3:
                    R.sample(info)
    if case.kind in ("lagrange", "bound") and "mixed" not in case.name:
        other = "bound" if case.kind == "lagrange" else "lagrange"
        o = build(case, None, None)
        try:
            setattr(o.atom, other, 1.)
            R.fail(key + ":wrong-form", "setting %s of an atom in %s form was accepted" % (other, case.kind))
        except AttributeError:
            R.outcome("wrong form rejected")
        with R.guard(key):
            observe(R, case, o, key, dict(after="rejected set of " + other))
