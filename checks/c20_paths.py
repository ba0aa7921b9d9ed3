"""Regularisation paths: every point of every path satisfies the optimality conditions of its own problem."""
import itertools
import warnings
import numpy as np
from scipy import sparse

PROPERTY = "C20"
LEVEL = "model_checking"
RULE = ("every combination of loss, penalty (feature weights including 0, group layouts, mixtures), elastic net, design type and fitter "
        "(strong rules, warm starts, basil with every step size) in bounds is run along a path; at every Lagrange value the optimality "
        "conditions of the whole problem are evaluated with the gradient of the data as given, and all sequences of fits and subsamples "
        "on one path object are explored")
ASSUMPTIONS = ["losses and their subsamples are checked separately", "inactive features may exceed their bound by the documented 1%", "inner tolerance 1e-12"]
BOUNDS = {"quick": "8 cases, 5 features, 8 losses, 12 weightings, 8 group layouts, 2 mixtures, 9 fitters, histories of length 2",
          "thorough": "all weightings with 0, 1, 2, all partitions of 5 features, histories of length 3"}

X = np.array([[1., 2., 0., -1., .5], [0., 1., -1., 2., 0.], [-1., .5, 1., 0., 1.], [2., 0., .5, 1., -1.], [.5, -1., 2., 0., 1.5],
              [-1.5, 1., 0., 1., 0.], [1., 1., 1., -2., 1.], [0., -1., .5, .5, 2.]])
YG = np.array([3., -1., 2., 4., -2., 0., 5., 1.])
YB = np.array([1., 0., 1., 1., 0., 0., 1., 0.])
YP = np.array([2., 0., 1., 4., 0., 1., 5., 1.])
TT = np.array([2., 5., 1., 3., 7., 4., 6., 8.])
SS = np.array([1., 0., 1., 1., 1., 0., 1., 1.])
YC = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 0, 0], [0, 0, 1], [0, 1, 0]], float)
YM = np.array([[3., 1.], [-1., 2.], [2., 0.], [4., -3.], [-2., 1.], [0., 1.5], [5., -1.], [1., 0.]])
W = [np.array(w, float) for w in ([1, 1, 1, 1, 1], [2, 1, .5, 1, 3], [.25, 1, .3, .2, 1], [0, 1, 1, 1, 1], [1, 0, 2, 0, 1], [0, 0, 0, 1, 1], [1, 1, 1, 1, 0])]
GROUPS = [np.array(g) for g in ([1, 1, 2, 2, 3], [3, 1, 3, 2, 1], [7, 7, 7, 7, 7], [5, 4, 3, 2, 1], [0, 0, 1, 1, 1], [-1, 10, -1, 2, 10])] + \
    [np.array(["b", "a", "b", "c", "a"])]
ENET = [(1., None), (.5, None), (.25, np.array([1., 0., 2., 1., .5]))]


# scale, case weights and offset of the loss
CW = np.array([1., 2., .5, 1., 3., 1., 0., 1.5, 2., 1., 1., .5, 1., 2., 1., .25])
OFF = np.array([.5, -1., 0., .25, 1., -.5, 0., .75, 0., .5, -.25, 1., 0., -1., .5, 0.])
VARIANTS = (None, (2.5, False, False), (1., True, False), (.4, False, True), (2., True, True))


def extras(variant, s, q=None):
    """keyword arguments of a loss of the cases s with q responses"""
    if variant is None:
        return {}
    coef, w, o = variant
    kw = dict(coef=coef)
    if w:
        kw["case_weights"] = CW[s].copy()
    if o:
        kw["offset"] = OFF[s].copy() if q is None else np.array([OFF[:8][s] * (1 - .5 * k) for k in range(q)]).T
    return kw


def loss_of(name, idx=None, variant=None):
    """saturated loss on the given cases"""
    from regreg.smooth import glm as G, mglm as M
    from regreg.smooth.cox import cox_loglike
    s = np.arange(8)[slice(None) if idx is None else idx]
    n = len(s)
    if name == "multinomial":
        return M.multinomial_loglike(YC[s].shape, YC[s].copy(), **extras(variant, s, 3))
    if name == "multiresponse":
        return M.stacked_common_loglike.gaussian(YM[s].T.copy(), **extras(variant, s, 2))
    if name == "cox":
        return cox_loglike((n,), TT[s].copy(), SS[s].copy(), **extras(variant, s))
    y = {"gaussian": YG, "huber": YG, "poisson": YP}.get(name, YB)[s].copy()
    a = {"huber": (.5,), "huber_svm": (.5,)}.get(name, ())
    k = {"huber": "huber_loss", "huber_svm": "huber_svm"}.get(name, name + "_loglike")
    return getattr(G, k)((n,), y, *a, **extras(variant, s))


SINGLE = ("gaussian", "logistic", "probit", "cloglog", "poisson", "cox", "huber", "huber_svm")


class Problem(object):
    """one regularised problem: independent gradient and optimality conditions, and the path object of the library"""

    def __init__(self, kind, loss, pen, enet, design="dense", variant=None):
        self.kind, self.loss, self.pen, self.enet, self.design, self.variant = kind, loss, pen, enet, design, variant
        self.info = dict(kind=kind, loss=loss, penalty=repr(pen), elastic_net=repr(enet), design=design, scale_weights_offset=repr(variant))

    def X(self):
        return X[:, :5]

    def given(self):
        D = self.X().copy()
        if self.design == "sparse":
            return sparse.csc_matrix(D)
        if self.design == "normalized":
            from regreg.affine import normalize
            return normalize(D, center=True, scale=True)
        return D

    def dense(self):
        if self.design == "normalized":
            D = self.X() - self.X().mean(0)
            return D / D.std(0, ddof=1)
        return self.X()

    def build(self):
        from regreg import paths
        from regreg.paths import lasso, group_lasso, sparse_group_lasso, sparse_group_block
        mod = {"lasso": lasso, "group": group_lasso, "sgl": sparse_group_lasso, "common": sparse_group_block, "block": sparse_group_block}[self.kind]
        a, e = self.enet
        kw = dict(alpha=a)
        if e is not None:
            kw["elastic_net_param"] = np.array(e) if self.kind in ("lasso", "group", "sgl") else np.outer(e, np.ones(self.q()))
        if self.kind == "lasso":
            pen = (self.pen.copy(),)
        elif self.kind == "group":
            g, w = self.pen
            pen = (g.copy(),)
            if w is not None:
                kw["weights"] = dict(w)
        elif self.kind == "sgl":
            g, lw, w, l1 = self.pen
            pen = (g.copy(), lw.copy())
            kw["l1_alpha"] = l1
            if w is not None:
                kw["weights"] = dict(w)
        else:
            pen = self.pen[:2]
            if self.pen[2] is not None:
                kw["l1_alpha"] = self.pen[2]
        if self.kind == "block":
            Xs = [self.X().copy(), self.X()[:, ::-1].copy()]
            if self.variant is not None:
                from regreg.smooth import glm as G
                make = getattr(G.stacked_loglike, self.loss)
                x = {"cox": ([TT.copy(), TT[::-1].copy()], [SS.copy(), SS.copy()]), "gaussian": ([YG.copy(), YG[::-1].copy()],), "poisson": ([YP.copy(), YP[::-1].copy()],),
                     "huber": ([YG.copy(), YG[::-1].copy()], .5), "huber_svm": ([YB.copy(), YB[::-1].copy()], .5)}.get(self.loss, ([YB.copy(), YB[::-1].copy()],))
                return mod.sparse_group_block_path(make(*x, **extras(self.variant, slice(None))), Xs, *pen, **kw)
            if self.loss == "cox":
                return mod.stacked_cox(Xs, [TT.copy(), TT[::-1].copy()], [SS.copy(), SS.copy()], *pen, **kw)
            Y = {"gaussian": [YG, YG[::-1]], "huber": [YG, YG[::-1]], "poisson": [YP, YP[::-1]]}.get(self.loss, [YB, YB[::-1]])
            x = (.5,) if self.loss.startswith("huber") else ()
            return getattr(mod, "stacked_" + self.loss)(Xs, [y.copy() for y in Y], *(x + pen), **kw)
        args = {"multinomial": (YC.copy(),), "multiresponse": (YM.copy(),), "cox": (TT.copy(), SS.copy()), "gaussian": (YG.copy(),), "poisson": (YP.copy(),),
                "huber": (YG.copy(), .5), "huber_svm": (YB.copy(), .5)}.get(self.loss, (YB.copy(),))
        if self.variant is not None:
            cls = {"lasso": "lasso_path", "group": "group_lasso_path", "sgl": "sparse_group_lasso_path", "common": "sparse_group_common_path"}[self.kind]
            return getattr(mod, cls)(loss_of(self.loss, None, self.variant), self.given(), *pen, **kw)
        f = {"multiresponse": "multiresponse_gaussian"}.get(self.loss, self.loss)
        return getattr(mod, f)(self.given(), *(args + pen), **kw)

    def q(self):
        return {"multinomial": 3, "multiresponse": 2}.get(self.loss, 2)

    # independent side

    def groups(self):
        """list of (coordinates, l2 weight, l1 weights) of penalised blocks"""
        if self.kind == "lasso":
            return [(np.array([i]), 0., np.array([w])) for i, w in enumerate(self.pen)]
        if self.kind == "group":
            g, w = self.pen
            return [(np.nonzero(g == k)[0], np.sqrt((g == k).sum()) if w is None else w[k], np.zeros((g == k).sum())) for k in np.unique(g)]
        if self.kind == "sgl":
            g, lw, w, l1 = self.pen
            return [(np.nonzero(g == k)[0], (1 - l1) * (np.sqrt((g == k).sum()) if w is None else w[k]), l1 * lw[g == k]) for k in np.unique(g)]
        l1, l2, a = self.pen
        if a is not None:
            l1, l2 = a * l1, (1 - a) * l2
        return [(i, l2, l1 * np.ones(self.q())) for i in range(5)]

    def unpenalized(self):
        u = np.zeros(5, bool)
        if self.kind == "sgl":    # a group without l2 weight and with a free feature has no largest Lagrange value of its own
            for k, l2, l1 in self.groups():
                u[k] = l2 == 0 and np.any(l1 == 0)
        elif self.kind in ("lasso", "group"):
            for k, l2, l1 in self.groups():
                u[k] = l2 == 0 and np.all(l1 == 0)
        return u

    def gradient(self, b, lagrange, idx=None, scale=1.):
        """of the smooth part; scale multiplies the part of the data"""
        s = slice(None) if idx is None else idx
        if self.kind == "block":
            out = []
            for j, D in enumerate((self.X(), self.X()[:, ::-1])):
                if idx is not None:    # cases of all responses one after the other
                    m = np.zeros(16, bool)
                    m[idx] = True
                    s = np.nonzero(m[8 * j:8 * j + 8])[0]
                y = (lambda v: v[::-1]) if j else (lambda v: v)
                from regreg.smooth import glm as G
                from regreg.smooth.cox import cox_loglike
                ex = extras(self.variant, 8 * j + np.arange(8)[s])
                if self.loss == "cox":
                    l = cox_loglike((len(D[s]),), y(TT)[s].copy(), SS[s].copy(), **ex)
                else:
                    v = y({"gaussian": YG, "huber": YG, "poisson": YP}.get(self.loss, YB))[s].copy()
                    a = (.5,) if self.loss.startswith("huber") else ()
                    k = {"huber": "huber_loss", "huber_svm": "huber_svm"}.get(self.loss, self.loss + "_loglike")
                    l = getattr(G, k)(v.shape, v, *a, **ex)
                out.append(D[s].T.dot(l.smooth_objective(D[s].dot(b[:, j]), "grad")))
            g = np.array(out).T
        else:
            D = self.dense()
            g = D[s].T.dot(np.asarray(loss_of(self.loss, idx, self.variant).smooth_objective(D[s].dot(b), "grad")))
        a, e = self.enet
        e = np.ones(5) if e is None else e
        ridge = (1 - a) * e * np.where(self.unpenalized(), 1, lagrange)
        return scale * g + (ridge * b.T).T

    def violation(self, b, g, lagrange, slack=.0101, tol=2e-4):
        """description of the worst violated condition, or None"""
        lam = lagrange * self.enet[0]
        tol = tol * max(1., np.abs(g).max())
        for k, l2, l1 in self.groups():
            bk, gk = np.ravel(b[k]), np.ravel(g[k])
            nb = np.sqrt((bk ** 2).sum())
            if nb == 0:
                if not l2 and not np.any(l1):
                    if np.abs(gk).max() > tol:
                        return "feature %s is not penalised but has gradient %r" % (k, gk.tolist())
                elif not np.any(np.abs(gk) > tol):
                    continue
                # the largest multiple of the gradient inside the subdifferential at zero
                elif np.sqrt((np.maximum(np.abs(gk) - (1 + slack) * lam * l1, 0) ** 2).sum()) > (1 + slack) * lam * l2 + tol:
                    return "group %s is zero although its gradient %r exceeds the penalty" % (k, gk.tolist())
            else:
                s = gk + lam * l2 * bk / nb
                nz = bk != 0
                r = np.where(nz, np.abs(s + lam * l1 * np.sign(bk)), np.maximum(np.abs(s) - (1 + slack) * lam * l1, 0))
                # a coefficient that is zero up to the accuracy of the solver may have any subgradient
                r = np.where(nz & (np.abs(bk) < 1e-6), np.maximum(np.abs(s) - lam * l1, 0), r)
                small = nb < 1e-5
                if np.max(r) > (tol if not small else lam * (l2 + np.max(l1)) * .2 + tol):
                    return "group %s of coefficients %r has gradient %r (residual %r)" % (k, bk.tolist(), gk.tolist(), r.tolist())
        return None


def fit(path, how, seq, init):
    """solutions along seq as a list of arrays of the shape of the coefficients, with the Lagrange values they are for"""
    from regreg.paths import strong_rules, warm_start
    from regreg.paths.basil import basil
    tol = 1e-12
    if how[0] == "strong":
        out = strong_rules(path, seq, init, inner_tol=1e-9, check_active=how[1])    # relative change of the coefficients
    elif how[0] == "warm":
        out = warm_start(path, seq, init, inner_tol=tol, solve_args={"min_its": 40})
    else:
        b = basil(path, seq, init, inner_tol=tol, step_nvar=how[1], step_lagrange=how[2], solve_args={"min_its": 40})
        return [np.asarray(x).T for x in b], None
    return [np.asarray(x).T for x in out["beta"]], out


FITTERS = [("strong", False), ("strong", True), ("warm",)] + [("basil", v, l) for v in (1, 50) for l in (1, 2, 5)]


def sequence(path, nstep, prop):
    from regreg.paths import default_lagrange_sequence
    return default_lagrange_sequence(path.penalty, path.grad_solution, lagrange_proportion=prop, nstep=nstep, alpha=path.alpha)


def follow(R, key, pr, path, how, nstep, prop, idx=None, info=None, again=None):
    info = dict(pr.info, fitter=how, steps=nstep, proportion=prop, cases=None if idx is None else repr(idx), **(info or {}))
    R.context = lambda: info
    with R.guard(key, info):
        s0 = np.asarray(path.solution)
        if np.abs(s0).max() > 10 and np.abs(pr.gradient(s0, 0., idx)).max() < 1e-5:
            return R.outcome("separated")        # the unpenalised features fit perfectly at infinity: no null solution
        seq = sequence(path, nstep, prop)
        init = (path.solution.copy(), path.grad_solution.copy())
        keep = (init[0].copy(), init[1].copy(), seq.copy())
        R.trans(nstep)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            betas, out = fit(path, how, seq, init)
        R.trace()
        R.check(len(betas) == len(seq), key + ":length", lambda: "%d solutions for %d Lagrange values" % (len(betas), len(seq)), info)
        R.check(not any("convergence" in str(w.message) for w in ws), key + ":convergence", lambda: "gave up: %s" % [str(w.message) for w in ws], info)
        for lam, b in zip(seq, betas):
            g = pr.gradient(b, lam, idx)
            v = pr.violation(b, g, lam, tol=5e-3 if lam == seq[0] else 2e-4)
            if v is not None:
                R.fail(key + ":kkt", "lagrange %r: %s" % (lam, v), info)
                break
        R.check(np.array_equal(init[0], keep[0]) and np.array_equal(init[1], keep[1]), key + ":initial", "the initial data were changed", info)
        R.check(np.array_equal(seq, keep[2]), key + ":sequence", "the sequence of Lagrange values was changed", info)
        # starting again from a solution further down, also at another first value
        if again and how[0] != "basil" or again == "basil":
            for start in (len(seq) - 2, 1):
                for off in (0, 1):
                    b = betas[start]
                    init = (b.copy(), pr.gradient(b, seq[start], idx))
                    sub = seq[start + off:] if off == 0 or start + 1 < len(seq) else seq[:1]
                    R.trans(len(sub))
                    bs, _ = fit(path, how, sub, init)
                    R.trace()
                    R.check(len(bs) == len(sub), key + ":length", lambda: "%d solutions for %d Lagrange values" % (len(bs), len(sub)), info)
                    for lam, c in zip(sub, bs):
                        v = pr.violation(c, pr.gradient(c, lam, idx), lam)
                        if v is not None:
                            R.fail(key + ":restart", "started from the solution of lagrange %r, at lagrange %r: %s" % (seq[start], lam, v), info)
                            break
            bs, _ = fit(path, how, seq[:2], (betas[-1].copy(), pr.gradient(betas[-1], seq[-1], idx)))    # back to the beginning
            R.trace()
            for lam, c in zip(seq[:2], bs):
                v = pr.violation(c, pr.gradient(c, lam, idx), lam, tol=5e-3)
                if v is not None:
                    R.fail(key + ":restart", "started from the solution of lagrange %r, at lagrange %r: %s" % (seq[-1], lam, v), info)
                    break
        # the first value is the smallest with the null solution
        s0 = np.asarray(path.solution)
        v = pr.violation(s0, pr.gradient(s0, seq[0], idx), seq[0], tol=5e-3, slack=1e-4)
        R.check(v is None, key + ":null", lambda: "the null solution does not solve the problem at the largest Lagrange value: %s" % v, info)
        v = pr.violation(s0, pr.gradient(s0, .98 * seq[0], idx), .98 * seq[0], slack=0.)
        R.check(v is not None, key + ":lagrange_max", "the null solution still solves the problem below the largest Lagrange value", info)
        R.outcome("%s:%s" % (pr.kind, how[0]))


def instances(kind, tier):
    """problems of one kind; the scale, weights and offset of the loss go round"""
    for k, pr in enumerate(plain(kind, tier)):
        if k % 2:
            pr = Problem(pr.kind, pr.loss, pr.pen, pr.enet, pr.design, VARIANTS[1 + k // 2 % 4])
        yield pr


def plain(kind, tier):
    if kind == "lasso":
        ws = W if tier == "quick" else [np.array(w, float) for w in itertools.product((0, 1, 2), repeat=5) if any(w)][::2]
        for k, l in enumerate(SINGLE):
            for j, w in enumerate(ws):
                for i, e in enumerate(ENET):
                    d = ("dense", "sparse", "normalized")[(i + j + k) % 3]
                    if tier == "quick" and (i + j + k) % 2 and l != "gaussian":
                        continue
                    yield Problem("lasso", l, w, fix(e, w == 0), d)
    elif kind == "group":
        gs = GROUPS if tier == "quick" else GROUPS + partitions()
        for k, l in enumerate(SINGLE):
            for j, g in enumerate(gs):
                ids = np.unique(g)
                for i, w in enumerate((None, dict((x, 1. + .5 * m) for m, x in enumerate(ids)), dict((x, 0. if m == 1 else 2.) for m, x in enumerate(ids)),
                                       dict((x, .25 + .5 * (m % 2)) for m, x in enumerate(ids)))):
                    if (i + j + k) % 4 and (l != "gaussian" or tier == "quick" and (i + j) % 2):
                        continue
                    e = ENET[(j + k + i) % 3]
                    u = np.zeros(5, bool) if w is None else np.array([w[x] == 0 for x in g])
                    if u.all():
                        continue
                    yield Problem("group", l, (g, w), fix(e, u), ("dense", "sparse")[(j + k) % 2])
    elif kind == "sgl":
        gs = GROUPS if tier == "quick" else GROUPS + partitions()
        for k, l in enumerate(SINGLE):
            for j, g in enumerate(gs):
                ids = np.unique(g)
                for i, (w, lw, a) in enumerate(((None, W[0], .5), (dict((x, 1. + .5 * m) for m, x in enumerate(ids)), W[1], .95),
                                                (dict((x, 0. if m == 1 else 2.) for m, x in enumerate(ids)), np.array([0. if len(ids) > 1 and x == ids[1] else 1. for x in g]), .5),
                                                (None, W[0], 0.), (None, W[1], 1.), (dict((x, .2 + .3 * (m % 2)) for m, x in enumerate(ids)), .3 * W[1], .6))):
                    if (i + j + k) % 5 and (l != "gaussian" or tier == "quick" and (i + j) % 2):
                        continue
                    u = np.zeros(5, bool) if w is None else np.array([w[x] == 0 for x in g])
                    yield Problem("sgl", l, (g, lw, w, a), fix(ENET[(j + k) % 3], u), "dense")
    elif kind == "common":
        for l in ("multinomial", "multiresponse"):
            for pen in ((1, 1.5, None), (1., 0., None), (0., 1., None), (.5, 2., None), (.3, .2, None), (1., 1.5, .5), (2., 1., .9)):
                for e in ENET:
                    yield Problem("common", l, pen, e)
    else:
        for k, l in enumerate(SINGLE):
            for i, pen in enumerate(((1, 1.5, None), (1., 0., None), (0., 1., None), (1., 1.5, .5))):
                yield Problem("block", l, pen, ENET[(i + k) % 3])


def fix(e, unpen):
    """the documented convention: no ridge where nothing is penalised is only a recommendation, keep a small one"""
    return e


def partitions():
    out = []

    def rec(p, m):
        if len(p) == 5:
            out.append(np.array(p))
            return
        for k in range(m + 2):
            rec(p + [k], max(m, k))
    rec([0], 0)
    return out


KINDS = ("lasso", "group", "sgl", "common", "block")


def units(tier):
    us = []
    for k, n in zip(KINDS, (8, 8, 10, 4, 4) if tier == "quick" else (24, 24, 32, 4, 4)):
        us += [("%s/%d" % (k, i), ("path", k, i, n)) for i in range(n)]
    us += [("history/%s" % k, ("history", k, 0, 1)) for k in KINDS]
    return us


def run(R, name, args, tier):
    what, kind, i, n = args
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if what == "history":
            return history(R, kind, tier)
        for j, pr in enumerate(list(instances(kind, tier))[i::n]):
            R.state()
            for f, how in enumerate(FITTERS):
                if tier == "quick" and (f + j) % (9 if how[0] == "basil" else 3 if how[0] == "strong" else 5):
                    continue
                with R.guard("%s:build" % kind, pr.info):
                    path = pr.build()
                    follow(R, kind, pr, path, how, *((4, .1) if (f + j) % 2 else (7, .3)), again="basil" if (f + j) % 3 == 0 or tier == "thorough" else None)


def history(R, kind, tier):
    """all sequences of fits and subsamples on one object; every fit of every object is checked"""
    prs = {"lasso": [Problem("lasso", "gaussian", W[1], ENET[2]), Problem("lasso", "logistic", W[3], ENET[0])],
           "group": [Problem("group", "gaussian", (GROUPS[1], {1: 1., 2: 0., 3: 2.}), ENET[1]), Problem("group", "poisson", (GROUPS[0], None), ENET[0])],
           "sgl": [Problem("sgl", "gaussian", (GROUPS[1], W[1], {1: 1., 2: 3., 3: 2.}, .5), ENET[0]), Problem("sgl", "logistic", (GROUPS[0], W[0], None, .8), ENET[1])],
           "common": [Problem("common", "multiresponse", (1., 1.5, None), ENET[1]), Problem("common", "multiresponse", (1., 1.5, .5), ENET[0]),
                      Problem("common", "multinomial", (1., 1.5, None), ENET[0])],
           "block": [Problem("block", "gaussian", (1., 1.5, None), ENET[0]), Problem("block", "logistic", (1., 1.5, .3), ENET[1])]}[kind]
    for k, pr in enumerate(prs[::2]):
        pr.variant = VARIANTS[1 + (KINDS.index(kind) + k) % 4]
        pr.info["scale_weights_offset"] = repr(pr.variant)
    idx = [np.array([0, 1, 2, 3, 5, 6, 7]), np.array([True, True, False, True, True, True, True, True])]
    if kind == "block":
        idx = [np.array([0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15]), np.r_[idx[1], np.ones(8, bool)]]
    ops = [("strong", False), ("warm",), ("basil", 1, 2), "sub0", "sub1"]
    for pr in prs:
        for seq in itertools.product(ops, repeat=2 if tier == "quick" else 3):
            R.state()
            with R.guard("history", dict(pr.info, operations=repr(seq))):
                live = [(pr.build(), None)]
                for op in seq:
                    path, s = live[-1]
                    if op in ("sub0", "sub1"):
                        if s is None:
                            k = idx[int(op[-1])]
                            live.append((path.subsample(k.copy()), k))
                        continue
                    follow(R, "history:" + kind, pr, path, op, 3, .2, s, dict(operations=repr(seq)))
                for path, s in live:
                    follow(R, "history:" + kind, pr, path, ("strong", False), 3, .2, s, dict(operations=repr(seq), last=True))
