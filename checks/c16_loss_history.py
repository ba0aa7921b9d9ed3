"""Histories of loss objects: data, weights, scale, offset, copies, subsamples and evaluations in every order."""
import itertools
import warnings
from copy import copy
import numpy as np
from mc import losses as L, ref
from mc.prox import make_quad
from checks.c14_multi import kinds, multi_ref

PROPERTY = "C16"
LEVEL = "model_checking"
RULE = ("every sequence of operations up to the depth on a loss and on the copies and subsamples made along the way (each operation "
        "addressed to every live object); after each sequence every live object is compared, in all evaluation modes at two points, "
        "with the closed form of its abstract state, and the caller's arrays with their original contents")
ASSUMPTIONS = ["new data have the shape of the old data", "additive constants kept in the quadratic of a loss are not compared"]
BOUNDS = {"quick": "depth 3, up to 3 live objects, 10 operations per object and 3 more in every sequence with a copy or subsample, 47 kinds of losses (all modes at the first point, function and gradient together at the second)",
          "thorough": "depth 4, up to 3 live objects"}

X0 = np.array([[1., 2.], [-1., .5], [0., 3.]])
X1 = np.array([[0., 1.], [2., -.5], [1., 1.]])
OPS = ("data", "weights", "coef", "offset", "no-offset", "copy", "sub-index", "sub-mask", "scribble-gradient", "scribble-weights")
MORE = ("quadratic", "start", "scribble-offset")    # explored in every sequence in which a copy or subsample is made too


class Subject(object):
    """build() -> object with state; values(state, x) -> f, g"""

    def __init__(self, name, build, points, n, values, newdata, off, arrays):
        self.name, self.build, self.points, self.n, self.values, self.newdata, self.off, self.arrays = name, build, points, n, values, newdata, off, arrays


def response_data(kind, r):
    """what the data attribute of a saturated loss accepts for this response"""
    if kind == "cox":
        return np.array([r[0], r[1]], float).T
    if kind in ("logistic", "probit", "cloglog") and r[1] is not None:
        return np.array(r[0]), np.array(r[1])
    return np.array(r[0])


def subjects():
    from regreg.smooth.glm import glm, stacked_loglike
    from regreg.smooth import mglm as M
    out = []
    for kind in kinds():
        name, rs, build, ref = kind
        ra, rb = rs[0], rs[1]
        if name in ("huber", "huber_svm"):
            rb = (rb[0], ra[1])
        pts = [np.array([.5, -1., 1.]), np.array([1., 0., -.5])]

        def sat(build=build, ra=ra):
            return build(ra)
        out.append(Subject("saturated/" + name, sat, pts, 3, lambda d, x, w, ref=ref, rr=(ra, rb): ref(x, rr[d], w),
                           lambda name=name, rr=(ra, rb): [response_data(name, r) for r in rr], np.array([.5, 1., -1.]), []))
        if name in ("logistic", "probit", "cloglog"):
            rc, rd = rs[2], rs[3]
            out.append(Subject("saturated-trials/" + name, lambda build=build, rc=rc: build(rc), pts, 3, lambda d, x, w, ref=ref, rr=(rc, rd): ref(x, rr[d], w),
                               lambda name=name, rr=(rc, rd): [response_data(name, r) for r in rr], np.array([.5, 1., -1.]), []))
        fam = [f for f in L.families() if f.name == name]

        def make_glm(fam=fam, ra=ra):
            return fam[0].glm(X0.copy(), ra) if fam else glm.cox(X0.copy(), np.array(ra[0]), np.array(ra[1]))

        def glm_values(d, b, w, ref=ref, rr=(ra, rb)):
            X = (X0, X1)[d]
            f, g = ref(X @ b, rr[d], w)
            return f, X.T @ g
        out.append(Subject("glm/" + name, make_glm, [np.array([.5, -1.]), np.array([1., .25])], 3, glm_values,
                           lambda name=name, rr=(ra, rb): [(X.copy(), response_data(name, r)) for X, r in zip((X0, X1), rr)], np.array([.5, -.5]), []))

        # two responses: (ra, rb), after new data (rb, ra)
        def both(d, rr=(ra, rb)):
            return (rr[0], rr[1]) if d == 0 else (rr[1], rr[0])
        plain = name not in ("cox",)
        six = [np.array([.5, -1., 1., 0., .25, -.5]), np.array([1., 0., -.5, .5, .5, 1.])]

        def stacked_values(d, x, w, ref=ref, both=both):
            a, b = both(d)
            p, q = ref(x[:3], a, w[:3]), ref(x[3:], b, w[3:])
            return p[0] + q[0], np.hstack([p[1], q[1]])

        def common_values(d, x, w, ref=ref, both=both):
            a, b = both(d)
            p, q = ref(x[:, 0].copy(), a, w), ref(x[:, 1].copy(), b, w)
            return p[0] + q[0], np.column_stack([p[1], q[1]])

        def resp(r, name=name):
            v = response_data(name, r)
            return v[0] if isinstance(v, tuple) else v.astype(float)
        if rb[1:] == ra[1:] or name == "cox":
            out.append(Subject("stacked/" + name, lambda build=build, both=both: stacked_loglike([build(r) for r in both(0)]), six, 6, stacked_values,
                               lambda both=both, resp=resp, plain=plain: [(np.hstack if plain else np.vstack)([resp(r) for r in both(d)]) for d in (0, 1)],
                               np.resize([.5, -1., 0., 1.], 6), []))
            sh = [p.reshape((2, 3)).T.copy() for p in six]
            out.append(Subject("common/" + name, lambda build=build, both=both: M.stacked_common_loglike([build(r) for r in both(0)]), sh, 3, common_values,
                               lambda both=both, resp=resp: [np.array([resp(r) for r in both(d)]).T for d in (0, 1)],
                               np.resize([.5, -1., 0., 1.], 6).reshape((3, 2)), []))

            def mglm_values(d, B, w, cv=common_values):
                X = (X0, X1)[d]
                f, g = cv(d, X @ B, w)
                return f, X.T @ g
            out.append(Subject("mglm/" + name, lambda build=build, both=both: M.mglm(X0.copy(), M.stacked_common_loglike([build(r) for r in both(0)])),
                               [np.array([[.5, -1.], [0., 1.]]), np.array([[1., .25], [-.5, .5]])], 3, mglm_values,
                               lambda both=both, resp=resp: [((X0, X1)[d].copy(), np.array([resp(r) for r in both(d)]).T) for d in (0, 1)],
                               np.array([[.5, 0.], [-1., .25]]), []))
    C = [np.array([[1, 0, 2], [3, 1, 1], [0, 2, 0]]), np.array([[0, 1, 1], [2, 2, 2], [4, 0, 1]])]
    for base in (False, True):
        q = 2 if base else 3
        pts = [np.resize([.5, -1., 0., 1.], 3 * q).reshape((3, q)), np.resize([1., 0., -.5], 3 * q).reshape((3, q)) * 1.]

        def mv(d, x, w, base=base):
            f, g = multi_ref(C[d], x, base)
            return (w * f).sum(), w[:, None] * g

        def gv(d, B, w, base=base):
            X = (X0, X1)[d]
            f, g = multi_ref(C[d], X @ B, base)
            return (w * f).sum(), X.T @ (w[:, None] * g)
        tag = "-baseline" if base else ""
        klass = M.multinomial_baseline_loglike if base else M.multinomial_loglike
        out.append(Subject("saturated/multinomial" + tag, lambda klass=klass, q=q: klass((3, q), C[0].copy()), pts, 3, mv,
                           lambda: [(c.copy(), c.sum(1)) for c in C], pts[1] + .25, []))
        out.append(Subject("mglm/multinomial" + tag, lambda base=base: M.mglm.multinomial(X0.copy(), C[0].copy(), baseline=base),
                           [p[:2] for p in pts], 3, gv, lambda: [(X.copy(), (c.copy(), c.sum(1))) for X, c in zip((X0, X1), C)], pts[1][:2] + .25, []))
    return out


def units(tier):
    return [(s.name, (s.name,)) for s in subjects()]


def weight(name, args):
    return 2 if args[0].startswith(("mglm", "stacked", "common")) else 1


def close(a, b, rtol=1e-7, atol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def sequences(depth, limit=3):
    """all operation sequences; an operation addresses one of the objects alive at that point"""
    NEW = ("copy", "sub-index", "sub-mask")

    def go(prefix, alive):
        used = set(o for o, i in prefix)
        if prefix and (not used.intersection(MORE) or used.intersection(NEW)):
            yield tuple(prefix)
        if len(prefix) == depth:
            return
        for i in range(alive):
            for op in OPS + MORE:
                new = op in NEW
                if op == "scribble-offset" and ("offset", i) not in prefix and not (alive > 1 and any(o == "offset" for o, j in prefix)):
                    continue            # no offset to edit
                if depth == 3 and len(prefix) == 2 and (op in MORE or set(o for o, j in prefix).intersection(MORE)) and alive + new == 1:
                    continue            # no copy or subsample any more
                if new and alive == limit:
                    continue
                for s in go(prefix + [(op, i)], alive + new):
                    yield s
    return go([], 1)


def run(R, name, args, tier):
    s = [x for x in subjects() if x.name == args[0]][0]
    depth = 3 if tier == "quick" else 4
    W2 = np.resize([.5, 3., 1., 0.], s.n)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for seq in sequences(depth):
            # a sequence ending in an operation that follows only no-ops on other objects is still explored: no reduction is applied
            play(R, s, seq, W2, tier == "quick")
        R.outcome(s.name.split("/")[0])


def play(R, s, seq, W2, quick):
    case = lambda: dict(loss=s.name, operations=[list(o) for o in seq])
    key = "history:" + s.name.split("/")[0]
    R.context = case
    R.trans()
    given = []
    keep = []
    with R.guard(key, case):
        ones = np.ones(s.n)
        first = s.build()
        start = np.array(first.coefs, float)
        objs = [[first, dict(d=0, coef=1., off=None, w=ones, q=None, start=start)]]
        for op, i in seq:
            o, st = objs[i]
            if op == "data":
                new = s.newdata()
                d = 1 - st["d"]
                given.append((new[d], s.newdata()[d]))
                o.data = new[d]
                objs[i][1] = dict(st, d=d)
            elif op == "weights":
                w = W2 * (i + 1)
                o.case_weights = w
                objs[i][1] = dict(st, w=w.copy())
            elif op == "coef":
                o.coef = 2.5 + i
                objs[i][1] = dict(st, coef=2.5 + i)
            elif op == "offset":
                a = s.off.copy()
                o.offset = a
                given.append((a, s.off))
                objs[i][1] = dict(st, off=s.off)
            elif op == "no-offset":
                o.offset = None
                objs[i][1] = dict(st, off=None)
            elif op == "copy":
                objs.append([copy(o), dict(st)])
            elif op == "sub-index":
                idx = [0, 2]
                objs.append([o.subsample(idx), dict(st, w=st["w"] * np.isin(np.arange(s.n), idx))])
            elif op == "sub-mask":
                mask = np.arange(s.n) != 1
                objs.append([o.subsample(mask), dict(st, w=st["w"] * mask)])
            elif op == "quadratic":
                q = (.5 + i, s.points[1] + i, s.points[0].copy(), 0)
                o.quadratic = make_quad(q)
                objs[i][1] = dict(st, q=q)
            elif op == "start":
                o.coefs[:] = s.points[i % 2]
                objs[i][1] = dict(st, start=np.array(s.points[i % 2]))
            elif op == "scribble-offset":
                if st["off"] is not None:
                    new = o.offset * 2
                    for k, (a, b) in enumerate(given):
                        if a is o.offset:
                            given[k] = (a, np.array(new))
                    o.offset[:] = new
                    objs[i][1] = dict(st, off=np.array(new))
            elif op == "scribble-gradient":
                g = o.smooth_objective(s.points[0].copy(), mode="grad")
                g += 100.
            elif op == "scribble-weights":
                if o.case_weights is not None:
                    if getattr(o.case_weights, "flags", None) is not None and o.case_weights.flags.writeable:
                        o.case_weights *= 2
                        objs[i][1] = dict(st, w=st["w"] * 2)
        R.state()
        buf = np.array(s.points[0], float)          # evaluations of all objects use one array, changed in place
        for k, (o, st) in enumerate(objs):
            who = lambda: dict(case(), object=k, state=repr(st))
            for j, x in enumerate(s.points):
                z = x if st["off"] is None else x - st["off"]
                f, g = s.values(st["d"], z, st["w"])
                f, g = st["coef"] * f, st["coef"] * g
                buf[...] = x
                b = o.smooth_objective(buf, mode="both")
                if j and quick:
                    v, d = b
                else:
                    v = o.smooth_objective(buf, mode="func")
                    d = o.smooth_objective(buf, mode="grad")
                R.check(np.array_equal(buf, x), key + ":mutates", "argument modified", who)
                keep.append((d, np.array(d)))
                R.check(close(v, f), key + ":value", lambda: "value %r, should be %r" % (v, f), who)
                R.check(close(d, g), key + ":gradient", lambda: "gradient %r, should be %r" % (d.tolist(), g.tolist()), who)
                R.check(close(b[0], f) and close(b[1], g), key + ":modes", "evaluation modes disagree", who)
            x, y = s.points
            v = o.quadratic.objective(y, "func") - o.quadratic.objective(x, "func")
            f = 0. if st["q"] is None else ref.q_value(st["q"], y) - ref.q_value(st["q"], x)
            R.check(close(v, f), key + ":quadratic", lambda: "the quadratic changes by %r, should be %r" % (v, f), who)
            R.check(close(o.coefs, st["start"]), key + ":coefs", lambda: "coefs are %r, should be %r" % (o.coefs, st["start"]), who)
            if hasattr(o, "linear_predictor"):
                X = (X0, X1)[st["d"]]
                R.check(close(o.linear_predictor(s.points[0]), X @ s.points[0]), key + ":linear_predictor", "linear predictor of stale data", who)
        R.check(all(np.array_equal(a, b) for a, b in keep), key + ":alias", "a gradient returned earlier was changed", case)
        for a, b in given:
            R.check(same(a, b), key + ":mutates", "an array given by the caller was changed", case)
        R.trace()


def same(a, b):
    if isinstance(a, tuple):
        return all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(a, b)
