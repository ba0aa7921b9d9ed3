"""min f(x) + sum_i g_i(D_i x + a_i): container, dual problem, ADMM, NESTA and TFOCS against a certified primal-dual pair."""
import itertools
import warnings
import numpy as np
from scipy import sparse
from mc import ref, losses as L
from mc.atoms import Case
from mc.prox import vec, make_quad

PROPERTY = "C19"
LEVEL = "model_checking"
RULE = ("every combination of smooth part, penalty kinds, linear maps, affine offsets and quadratics in bounds is solved by every applicable "
        "solver of the library; the reference is a primal-dual pair that satisfies the optimality conditions of the combination to 1e-6 "
        "(conditions checked for each combination, independent of how the pair was found), and strong convexity bounds the distance")
ASSUMPTIONS = ["strongly convex smooth part", "splitting methods run to their iteration limit; three decimals are demanded"]
BOUNDS = {"quick": "3 coordinates, 3 smooth parts, 11 penalties, 9 linear maps with and without offset, pairs of penalties, 5 solvers",
          "thorough": "as quick with all pairs and more smooth parts"}
P = 3
DIFF = np.array([[-1., 1., 0.], [0., -1., 1.]])
WIDE = np.array([[1., 0., 0.], [-1., 1., 0.], [0., -1., 1.], [.5, .5, 1.]])
SQ = np.array([[1., .5, 0.], [0., 1., -1.], [2., 0., -1.5]])


def maps():
    """name -> (dense matrix, object given to the library)"""
    out = {"identity": (np.eye(3), lambda: None), "dense": (DIFF, lambda: DIFF.copy()), "row": (np.array([[1., -1., .5]]), lambda: np.array([[1., -1., .5]])),
           "sparse": (DIFF, lambda: sparse.csr_matrix(DIFF)), "wide": (WIDE, lambda: WIDE.copy()), "square": (SQ, lambda: SQ.copy())}

    def sel(idx, n):
        M = np.zeros((n, 3))
        M[np.arange(n), np.arange(3)[idx]] = 1

        def build():
            from regreg.affine import selector
            return selector(idx, (3,))
        return M, build
    out["slice"] = sel(slice(1, 3), 2)
    out["index"] = sel([2, 0], 2)

    def diag():
        from regreg.affine import scaler
        return None
    return out


class Pen(object):
    def __init__(self, name, cls, kind, pair, param, proxg):
        self.name, self.cls, self.kind, self.pair, self.param, self.proxg = name, cls, kind, pair, param, proxg
        self.case = Case(name, (1,), None, kind, pair, (param,))

    def kw(self):
        return {} if self.param is None else {self.kind: self.param}

    def klass(self):
        from regreg.atoms import seminorms as S, cones as C
        return getattr(S, self.cls, None) or getattr(C, self.cls)

    def build(self, D, lib, a):
        """atom of D x + a"""
        k = self.klass()
        if lib is None and a is None:
            return k((3,), **self.kw())
        if lib is None:
            return k((3,), offset=-a, **self.kw())
        m = D.shape[0]
        from regreg.atoms import affine_atom
        from regreg.affine import selector, affine_transform
        if isinstance(lib, selector):
            from regreg.affine import identity, composition
            if a is None:
                return affine_atom(k((m,), **self.kw()), lib)
            return affine_atom(k((m,), offset=-a, **self.kw()), lib)
        if a is None:
            return k.linear(lib, **self.kw())
        return k.affine(lib, a, **self.kw())


def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


def l1ball(v, b):
    if np.abs(v).sum() <= b:
        return v
    u = np.sort(np.abs(v))[::-1]
    c = (np.cumsum(u) - b) / np.arange(1, len(u) + 1)
    return soft(v, c[np.nonzero(u > c)[0][-1]])


def l2shrink(v, t):
    n = np.sqrt((v ** 2).sum())
    return v * max(0, 1 - t / n) if n else v


def pens(f=1.):
    """the penalties with their parameter times f"""
    return [Pen("l1", "l1norm", "lagrange", ref.l1_sup, .6 * f, lambda v, t: soft(v, .6 * f * t)),
            Pen("l1-bound", "l1norm", "bound", ref.l1_sup, .7 * f, lambda v, t: l1ball(v, .7 * f)),
            Pen("sup", "supnorm", "lagrange", ref.sup_l1, .8 * f, lambda v, t: v - l1ball(v, .8 * f * t)),
            Pen("sup-bound", "supnorm", "bound", ref.sup_l1, .5 * f, lambda v, t: np.clip(v, -.5 * f, .5 * f)),
            Pen("l2", "l2norm", "lagrange", ref.l2_l2, .6 * f, lambda v, t: l2shrink(v, .6 * f * t)),
            Pen("l2-bound", "l2norm", "bound", ref.l2_l2, .7 * f, lambda v, t: v * min(1, .7 * f / max(1e-300, np.sqrt((v ** 2).sum())))),
            Pen("positive", "positive_part", "lagrange", ref.pospart, .9 * f, lambda v, t: np.where(v > 0, np.maximum(v - .9 * f * t, 0), v)),
            Pen("nonnegative", "nonnegative", "cone", ref.nonnegative, None, lambda v, t: np.maximum(v, 0)),
            Pen("nonpositive", "nonpositive", "cone", ref.nonpositive, None, lambda v, t: np.minimum(v, 0)),
            Pen("equality", "zero_constraint", "cone", ref.origin, None, lambda v, t: 0 * v),
            Pen("none", "zero", "cone", ref.whole, None, lambda v, t: v)]


HARD = ("l1-bound", "sup-bound", "l2-bound", "nonnegative", "nonpositive", "equality")


class Smooth(object):
    """f with gradient; quad=(H, b): f = x'Hx/2 - b'x; otherwise glm"""

    def __init__(self, name, build, grad, hess, val):
        self.name, self.build, self.grad, self.hess, self.val = name, build, grad, hess, val


def smooths():
    from regreg.smooth.quadratic import signal_approximator, quadratic_loss
    z = np.array([1.5, -2., .7])
    Q = np.array([[2., .5, 0.], [.5, 1., .3], [0., .3, 1.5]])
    X = np.array([[1., 2., 0.], [-1., .5, 1.], [0., 1., -1.], [1.5, -1., .5], [.5, 0., 1.]])
    fam = [f for f in L.families() if f.name == "logistic"][0]
    r = (np.array([1., 2., 1., 1., 3.]), np.array([2., 3., 3., 2., 4.]))
    y = np.array([1., -2., .5, 3., 0.])
    ridge = (.5, None, np.array([.5, 0., -1.]), 1.)

    def logistic():
        return fam.glm(X.copy(), r, quadratic=make_quad(ridge))

    def gauss():
        from regreg.smooth.glm import glm
        return glm.gaussian(X.copy(), y.copy())
    return [Smooth("signal", lambda: signal_approximator(z.copy()), lambda x: x - z, lambda x: np.eye(3), lambda x: ((x - z) ** 2).sum() / 2.),
            Smooth("matrix", lambda: quadratic_loss(3, Q=Q.copy(), offset=z.copy()), lambda x: Q.dot(x - z), lambda x: Q, lambda x: (x - z).dot(Q).dot(x - z) / 2.),
            Smooth("logistic", logistic, lambda x: X.T.dot(fam.g(X.dot(x), r)) + ref.q_grad(ridge, x),
                   lambda x: X.T.dot(fam.h(X.dot(x), r)[:, None] * X) + .5 * np.eye(3), lambda x: fam.f(X.dot(x), r).sum() + ref.q_value(ridge, x)),
            Smooth("gaussian", gauss, lambda x: X.T.dot(X.dot(x) - y), lambda x: X.T.dot(X), lambda x: ((X.dot(x) - y) ** 2).sum() / 2.)]


def reference(fs, qs, parts):
    for rho in (2., 20., .2, 200.):
        out = attempt(fs, qs, parts, rho)
        if not out[3]:
            break
    return out


def attempt(fs, qs, parts, rho):
    """primal-dual pair of min sum f + sum q + sum g_i(D_i x + a_i) by ADMM with exact steps, certified"""
    D = np.vstack([p[1] for p in parts])
    a = np.hstack([np.zeros(p[1].shape[0]) if p[3] is None else p[3] for p in parts])
    cut = np.cumsum([0] + [p[1].shape[0] for p in parts])
    grad = lambda x: sum(f.grad(x) for f in fs) + sum(ref.q_grad(q, x) for q in qs)
    hess = lambda x: sum(f.hess(x) for f in fs) + sum((q[0] or 0.) for q in qs) * np.eye(3)
    x, z, w = np.zeros(3), a.copy(), np.zeros(len(a))
    H = None
    quad = all(f.name != "logistic" for f in fs)
    for it in range(3000):
        if quad and H is None:
            H = np.linalg.inv(hess(x) + rho * D.T.dot(D))
            g0 = grad(np.zeros(3))
        if quad:
            x = H.dot(-g0 + rho * D.T.dot(z - a - w))
        else:
            for _ in range(30):
                g = grad(x) + rho * D.T.dot(D.dot(x) + a - z + w)
                if np.abs(g).max() < 1e-12:
                    break
                x = x - np.linalg.solve(hess(x) + rho * D.T.dot(D), g)
        y = D.dot(x) + a
        old = z
        z = np.hstack([p[0].proxg((y + w)[cut[i]:cut[i + 1]], 1. / rho) for i, p in enumerate(parts)])
        w = w + y - z
        if np.abs(y - z).max() < 1e-11 and np.abs(z - old).max() < 1e-11:
            break
    u = rho * w
    bad = []
    if np.abs(grad(x) + D.T.dot(u)).max() > 1e-7:
        bad.append("stationarity")
    for i, p in enumerate(parts):
        m = p[0].case.ok(p[0].param, z[cut[i]:cut[i + 1]], np.where(np.abs(u[cut[i]:cut[i + 1]]) < 1e-8, 0, u[cut[i]:cut[i + 1]]), 1e-6)
        if m:
            bad.append(m)
    if np.abs(y - z).max() > 1e-7:
        bad.append("consistency")
    value = sum(f.val(x) for f in fs) + sum(ref.q_value(q, x) for q in qs) + sum(p[0].case.val(p[0].param, z[cut[i]:cut[i + 1]]) for i, p in enumerate(parts))
    return x, u, value, bad


OFFS = np.array([.3, -.2, .4, .1])


def combos(tier):
    """lists of (penalty, map name, with offset)"""
    M = maps()
    ps = dict((p.name, p) for p in pens())
    single, double = [], []
    for n in ps:
        for m in M:
            if n in HARD and m == "wide":
                continue
            if n == "none" and m != "identity":
                continue
            for o in (0, 1):
                single.append([(n, m, o)])
    maps2 = ("identity", "dense", "slice", "square") if tier == "quick" else tuple(M)
    for n1, n2 in itertools.product(ps, ps):
        if n1 in HARD and n2 in HARD or "none" in (n1, n2):
            continue
        for k, (m1, m2) in enumerate(itertools.product(maps2, maps2)):
            if (n1 in HARD and m1 == "wide") or (n2 in HARD and m2 == "wide"):
                continue
            if tier == "quick" and (k + len(n1) * 3 + len(n2)) % 18:
                continue
            double.append([(n1, m1, k % 2), (n2, m2, (k + 1) % 2)])
    triple = [[("l1", "dense", 0), ("sup", "square", 1), ("nonnegative", "identity", 0)], [("l2", "slice", 0), ("l1", "identity", 1), ("positive", "row", 1)],
              [("l1", "index", 1), ("l1", "slice", 0), ("l1-bound", "identity", 0)]]
    return single, double, triple


def units(tier):
    s, d, t = combos(tier)
    us = []
    for route in ("container", "dual"):
        us += [("%s/one/%d" % (route, i), (route, "one", i, 12)) for i in range(12)]
        us += [("%s/two/%d" % (route, i), (route, "two", i, 12)) for i in range(12)]
        us += [("%s/three" % route, (route, "three", 0, 1))]
    us += [("history/%d" % i, ("history", "history", i, 1)) for i in range(len(HISTORIES))]
    us += [("admm/%d" % i, ("admm", "one", i, 6)) for i in range(6)]
    us += [("nesta/%d" % i, ("nesta", "one", i, 6)) for i in range(6)]
    us += [("tfocs", ("tfocs", "one", 0, 1)), ("smooth-only", ("bare", "one", 0, 1))]
    return us


def weight(name, args):
    return {"tfocs": 9, "history": 8, "admm": 6, "container": 4}.get(args[0], 3)


def run(R, name, args, tier):
    route, which, i, n = args
    if route == "history":
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return run_history(R, HISTORIES[i], tier)
    todo = dict(zip(("one", "two", "three"), combos(tier)))[which][i::n]
    M = maps()
    ps = dict((p.name, p) for p in pens())
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if route == "bare":
            return bare(R)
        for c in todo:
            parts = []
            for pn, mn, o in c:
                D, lib = M[mn]
                parts.append((ps[pn], D, lib, OFFS[:D.shape[0]] if o else None))
            R.state()
            globals()["run_" + route](R, c, parts, tier)


def atoms_of(parts):
    return [p[0].build(p[1], p[2](), None if p[3] is None else p[3].copy()) for p in parts]


_cache = {}


def certified(R, key, fs, qs, parts, c):
    k = (tuple(f.name for f in fs), repr(qs), repr(c))
    if k not in _cache:
        x, u, v, bad = reference(fs, qs, parts)
        if bad:
            raise RuntimeError("no certified reference for %s: %s" % (k, bad))
        _cache[k] = (x, u, v)
    return _cache[k]


FULL = (.7, np.array([1., -1., .5]), np.array([0., .5, 1.]), 2.)
LIN = (0, None, np.array([1., 0., -.5]), 1.)


def near(a, b, tol=2e-3):
    return np.shape(a) == np.shape(b) and np.all(np.isfinite(a)) and np.abs(np.asarray(a) - b).max() <= tol


def run_container(R, c, parts, tier):
    from regreg.problems.container import container
    S = smooths()
    sets = [([S[0]], None, None, None), ([S[2]], LIN, FULL, LIN), ([S[1], S[0]], FULL, None, FULL), ([S[0]], FULL, LIN, None)]
    if tier == "thorough":
        sets += [([S[3]], None, FULL, None), ([S[0]], FULL, LIN, FULL)]
    elif len(c) < 3:
        k = sum(len(p[0]) + len(p[1]) + p[2] for p in c) % 4
        sets = [sets[k], sets[k - 2]][:1 + (len(c) == 1 and c[0][2])]
    DD = np.vstack([p[1] for p in parts])
    for fs, lq, cq, sq in sets:
        info = dict(penalties=c, smooth=[f.name for f in fs], loss_quadratic=lq, container_quadratic=cq, solve_quadratic=sq)
        R.context = lambda: info
        key = "container"
        with R.guard(key, info):
            loss = [f.build() for f in fs]
            if lq is not None:
                loss[0].quadratic = loss[0].quadratic + make_quad(lq)
            ats = atoms_of(parts)
            pb = container(*(ats + loss if len(c) % 2 else loss + ats))
            if cq is not None:
                pb.quadratic = make_quad(cq)
            before = repr(pb.quadratic)
            for q in ([None, sq] if sq is not None else [None]):
                qs = [x for x in (lq, cq, q) if x is not None]
                x0, u0, v0 = certified(R, key, fs, qs, parts, c)
                R.trans()
                control = dict(prox_control=dict(min_its=60)) if q is None else dict(prox_control=dict(min_its=60, dual_reference_lipschitz=1.01 * np.linalg.eigvalsh(DD.T.dot(DD)).max(), tol=1e-13))
                out = pb.solve(*(() if q is None else (make_quad(q),)), return_optimum=True, tol=1e-10, min_its=10, max_its=400, **control)
                R.trace()
                R.check(near(out[1], x0), key, lambda: "solve returned %r, the minimiser is %r" % (np.asarray(out[1]).tolist(), x0.tolist()), dict(info, quadratic=q))
                R.check(abs(out[0] - v0) <= 2e-3 * max(1, abs(v0)) or out[0] == np.inf, key + ":optimum", lambda: "optimum %r, should be %r" % (out[0], v0), dict(info, quadratic=q))
                R.check(repr(pb.quadratic) == before, key + ":restores", "solve changed the quadratic of the container", info)
            if fs[0].name == "signal" and len(fs) == 1:
                for ps in ((1.3, np.array([.5, -1., 2.]), np.array([.2, 0., -.4]), 1.), (1.3, None, np.array([.2, 1., -.4]), 0)):
                    # the proximal map of the container: its penalties and quadratics without the smooth part
                    flat = Smooth("flat", None, lambda x: 0 * x, lambda x: np.zeros((3, 3)), lambda x: 0.)
                    x0, u0, v0 = certified(R, key, [flat], [ps] + ([cq] if cq else []) + ([lq] if lq else []), parts, c)
                    R.trans()
                    x = pb.proximal(make_quad(ps), prox_control=dict(min_its=100))
                    R.trace()
                    R.check(near(x, x0), key + ":proximal", lambda: "proximal map returned %r, should be %r" % (np.asarray(x).tolist(), x0.tolist()), dict(info, quadratic=ps))
        R.outcome("container:%d" % len(c))


HISTORIES = [[("l1", "dense", 0)], [("l2", "identity", 1)], [("sup", "slice", 0)], [("l1", "dense", 1), ("l1-bound", "identity", 0)], [("l2", "square", 0), ("nonnegative", "identity", 0)]]
CHANGES = ("parameter", "last-parameter", "offset", "loss-quadratic", "container-quadratic", "start", "solve", "proximal", "solve-q")


def run_history(R, c, tier):
    """one container whose parts are changed between its solves and proximal maps: the minimiser of what it is at that moment"""
    from regreg.problems.container import container
    M, S = maps(), smooths()
    one, two = (dict((p.name, p) for p in pens(f)) for f in (1., 2.5))
    for n in range(0, 4 if tier == "thorough" else 3):
        for seq in itertools.product(CHANGES, repeat=n):
            if n and seq[-1] in ("start", "solve", "proximal", "solve-q") and tier == "quick" and seq[-1] != "solve" or "last-parameter" in seq and (len(c) < 2 or c[-1][0] in ("nonnegative",)):
                continue
            if n == 2 and tier == "quick" and len(c) > 1 and (len(seq[0]) + 2 * len(seq[1])) % 2:
                continue
            info = dict(penalties=c, operations=list(seq) + ["solve", "proximal"])
            R.context = lambda: info
            key = "history"
            with R.guard(key, info):
                f = S[0] if len(c) == 1 else S[1]
                st = dict(pens=[one[p[0]] for p in c], lq=None, cq=None, off=[OFFS[:M[p[1]][0].shape[0]] if p[2] else None for p in c])
                loss = f.build()
                ats = [p.build(M[q[1]][0], M[q[1]][1](), None if o is None else o.copy()) for p, q, o in zip(st["pens"], c, st["off"])]
                pb = container(*(ats + [loss]))
                inner = [getattr(t, "atom", t) for t in ats]

                def parts():
                    return [(p, M[q[1]][0], None, o) for p, q, o in zip(st["pens"], c, st["off"])]

                def check(what, x, fs, extra):
                    qs = [q for q in (st["lq"], st["cq"]) if q is not None] + extra
                    x0, u0, v0 = certified(R, key, fs, qs, parts(), [(p.name, p.param, q[1], o) for p, q, o in zip(st["pens"], c, st["off"])])
                    R.trace()
                    R.check(near(x, x0), key + ":" + what, lambda: "%s returned %r, should be %r" % (what, np.asarray(x).tolist(), x0.tolist()), info)

                def proximal():
                    ps = (1.3, np.array([.5, -1., 2.]), np.array([.2, 0., -.4]), 1.)
                    check("proximal", pb.proximal(make_quad(ps), prox_control=dict(min_its=100)), [Smooth("flat", None, lambda x: 0 * x, lambda x: np.zeros((3, 3)), lambda x: 0.)], [ps])

                def solve(q=None):
                    check("solve", pb.solve(*(() if q is None else (make_quad(q),)), tol=1e-10, min_its=10, max_its=400, prox_control=dict(min_its=60)), [f], [] if q is None else [q])
                for op in seq:
                    R.trans()
                    if op in ("parameter", "last-parameter"):
                        i = 0 if op == "parameter" else -1
                        p = st["pens"][i]
                        st["pens"][i] = (two if p is one[p.name] else one)[p.name]
                        setattr(inner[i], p.kind, st["pens"][i].param)
                    elif op == "offset":
                        new = np.array([-.4, .3, .2, .5])[:M[c[0][1]][0].shape[0]]
                        inner[0].offset = -new
                        st["off"][0] = new
                    elif op == "loss-quadratic":
                        st["lq"] = FULL
                        loss.quadratic = make_quad(FULL)
                    elif op == "container-quadratic":
                        st["cq"] = LIN
                        pb.quadratic = make_quad(LIN)
                    elif op == "start":
                        pb.coefs[:] = [3., -2., 1.]
                    elif op == "proximal":
                        proximal()
                    elif op == "solve":
                        solve()
                    else:
                        solve(FULL)
                solve()
                proximal()
                R.state()
    R.outcome("history:%d" % len(c))


def run_dual(R, c, parts, tier):
    from regreg.problems.dual_problem import dual_problem, stacked_dual
    import regreg.api as rr
    S = smooths()
    # f with a smooth conjugate: quadratics, and penalties plus a quadratic
    fl = [("signal", lambda: S[0].build(), [S[0]], []), ("matrix", lambda: S[1].build(), [S[1]], []),
          ("zero+quadratic", lambda: rr.zero((3,), quadratic=make_quad(FULL)), [], [FULL])]
    for fname, fb, fs, qs in fl:
        flat = Smooth("flat", None, lambda x: 0 * x, lambda x: np.zeros((3, 3)), lambda x: 0.)
        for route in ("fromprimal", "constructor"):
            if route == "fromprimal" and fname == "matrix":  # a factorization has to be asked for
                continue
            info = dict(penalties=c, f=fname, route=route)
            R.context = lambda: info
            with R.guard("dual", info):
                x0, u0, v0 = certified(R, "dual", fs or [flat], qs, parts, c)
                ats = atoms_of(parts)
                f = fb()
                if route == "fromprimal":
                    dp = dual_problem.fromprimal(f, *ats)
                else:
                    t, a = stacked_dual((3,), *ats)
                    dp = dual_problem(f.get_conjugate(factor=True) if fname == "matrix" else f.conjugate, t, a)
                R.trans()
                x = dp.solve(tol=1e-14, min_its=50, max_its=2000)
                R.trace()
                R.check(near(x, x0), "dual", lambda: "primal solution %r, should be %r" % (np.asarray(x).tolist(), x0.tolist()), info)
                val, x = dp.solve(return_optimum=True, tol=1e-14, min_its=50, max_its=2000)
                R.check(near(x, x0) and abs(val + v0) <= 2e-3 * max(1, abs(v0)), "dual:optimum",
                        lambda: "optimum %r of the dual, minus the primal optimum is %r" % (val, -v0), info)
        R.outcome("dual:%s" % fname)
    # a nonsmooth strongly convex f: l1 plus quadratic is the same as one more penalty
    if len(c) == 1 and c[0][0] not in ("none",):
        info = dict(penalties=c, f="l1+quadratic")
        l1 = [p for p in pens() if p.name == "l1"][0]
        flat = Smooth("flat", None, lambda x: 0 * x, lambda x: np.zeros((3, 3)), lambda x: 0.)
        with R.guard("dual:nonsmooth", info):
            x0, u0, v0 = certified(R, "dual", [flat], [FULL], parts + [(l1, np.eye(3), None, None)], c + ["l1"])
            dp = dual_problem.fromprimal(rr.l1norm((3,), lagrange=.6, quadratic=make_quad(FULL)), *atoms_of(parts))
            R.trans()
            x = dp.solve(tol=1e-14, min_its=50, max_its=2000)
            R.trace()
            R.check(near(x, x0), "dual:nonsmooth", lambda: "primal solution %r, should be %r" % (np.asarray(x).tolist(), x0.tolist()), info)


def run_admm(R, c, parts, tier):
    from regreg.problems.admm import admm_problem
    from regreg.affine import astransform, affine_transform, identity
    S = smooths()
    (p, D, lib, a), = parts
    if c[0][1] in ("slice", "index", "sparse") and a is not None:
        return
    todo = [(S[0], None, 1.), (S[1], FULL, 3.), (S[2], LIN, 2.)]
    if tier == "quick":
        k = sum(len(x) for x in c[0][:2]) + c[0][2]
        todo = todo[k % 3:][:1]
    for f, q, rho in todo:
        info = dict(penalty=c, loss=f.name, quadratic=q, rho=rho)
        R.context = lambda: info
        with R.guard("admm", info):
            x0, u0, v0 = certified(R, "admm", [f], [q] if q else [], parts, c)
            m = D.shape[0]
            T = lib() if lib() is not None else np.eye(3)
            T = affine_transform(T, a.copy()) if a is not None else astransform(T)
            atom = p.klass()((m,), **p.kw())
            pb = admm_problem(f.build(), atom, T, rho, quadratic=None if q is None else make_quad(q), fit_args=dict(tol=1e-10, min_its=10))
            R.trans()
            pb.solve(niter=100 if tier == "quick" else 300)
            R.trace()
            R.check(near(pb.loss_coefs, x0, 1e-2), "admm", lambda: "solution %r, should be %r" % (pb.loss_coefs.tolist(), x0.tolist()), info)
            z0 = D.dot(x0) + (0 if a is None else a)
            R.check(near(pb.atom_coefs, z0, 1e-2), "admm:split", lambda: "penalty coefficients %r, should be %r" % (pb.atom_coefs.tolist(), z0.tolist()), info)
        R.outcome("admm")


def run_nesta(R, c, parts, tier):
    from regreg.problems.simple import nesta
    import regreg.api as rr
    S = smooths()
    l1 = [p for p in pens() if p.name == "l1"][0]
    (p, D, lib, a), = parts
    if p.name == "none":
        return
    todo = [(S[0], None, None, False), (S[1], "l1", FULL, True), (S[2], "l1", None, False)]
    if tier == "quick":
        k = sum(len(x) for x in c[0][:2]) + c[0][2]
        todo = todo[k % 3:][:1]
    for f, prox, q, stop in todo:
        info = dict(penalty=c, loss=f.name, proximal=prox, quadratic=q, coef_stop=stop)
        R.context = lambda: info
        with R.guard("nesta", info):
            ps = parts + ([(l1, np.eye(3), None, None)] if prox else [])
            x0, u0, v0 = certified(R, "nesta", [f], [q] if q else [], ps, c + [prox])
            atom, = atoms_of(parts)
            R.trans()
            kw = {} if q is None else dict(quadratic=make_quad(q))
            d0 = np.zeros(D.shape[0])
            x, d = nesta(f.build(), rr.l1norm((3,), lagrange=.6) if prox else None, atom, epsilon=[1.] * 200, tol=1e-12, coef_tol=1e-12, max_iters=1000,
                         coef_stop=stop, initial_dual=d0, **kw)
            R.trace()
            R.check(near(x, x0, 1e-3), "nesta", lambda: "solution %r, should be %r" % (np.asarray(x).tolist(), x0.tolist()), info)
            R.check(not np.any(d0), "nesta:mutates", "the initial dual variables were changed", info)
        R.outcome("nesta")


def run_tfocs(R, c, parts, tier):
    from regreg.problems.simple import tfocs
    import regreg.api as rr
    (p, D, lib, a), = parts
    if p.name == "none" or c[0][1] in ("slice", "index", "sparse") and a is not None:
        return
    l1 = [q for q in pens() if q.name == "l1"][0]
    flat = Smooth("flat", None, lambda x: 0 * x, lambda x: np.zeros((3, 3)), lambda x: 0.)
    info = dict(penalty=c)
    R.context = lambda: info
    with R.guard("tfocs", info):
        # strongly convex by the quadratic: l1 + quadratic + g(Dx + a)
        x0, u0, v0 = certified(R, "tfocs", [flat], [FULL], parts + [(l1, np.eye(3), None, None)], c + ["l1"])
        atom, = atoms_of(parts)
        t, conj = atom.dual
        R.trans()
        x, d = tfocs(rr.l1norm((3,), lagrange=.6), t, conj, epsilon=[1.] * 20 + [.1] * 20 + [.01] * 20, tol=1e-12, coef_tol=1e-10, quadratic=make_quad(FULL))
        R.trace()
        R.check(near(x, x0, 1e-3), "tfocs", lambda: "solution %r, should be %r" % (np.asarray(x).tolist(), x0.tolist()), info)
    R.outcome("tfocs")


def bare(R):
    """containers with smooth parts only and with penalties only"""
    from regreg.problems.container import container
    import regreg.api as rr
    S = smooths()
    for fs in ([S[0]], [S[1]], [S[2]], [S[0], S[3]]):
        info = dict(smooth=[f.name for f in fs])
        R.state()
        with R.guard("bare", info):
            x = np.zeros(3)
            for _ in range(50):
                x = x - np.linalg.solve(sum(f.hess(x) for f in fs), sum(f.grad(x) for f in fs))
            R.trans()
            y = container(*[f.build() for f in fs]).solve(tol=1e-14, min_its=30)
            R.trace()
            R.check(near(y, x), "bare", lambda: "solution %r, should be %r" % (np.asarray(y).tolist(), x.tolist()), info)
    for q in (FULL,):
        info = dict(penalties="only", quadratic=q)
        with R.guard("bare:penalties", info):
            ps = pens()
            parts = [(ps[0], np.eye(3), lambda: None, None), (ps[2], DIFF, lambda: DIFF.copy(), None)]
            flat = Smooth("flat", None, lambda x: 0 * x, lambda x: np.zeros((3, 3)), lambda x: 0.)
            x0 = reference([flat], [q], parts)[0]
            pb = container(*atoms_of(parts))
            pb.quadratic = make_quad(q)
            R.trans()
            y = pb.solve(tol=1e-14, min_its=30)
            R.trace()
            R.check(near(y, x0), "bare:penalties", lambda: "solution %r, should be %r" % (np.asarray(y).tolist(), x0.tolist()), info)
