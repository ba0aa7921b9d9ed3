"""scikit-learn estimators: what fit solves, what predict and score return, and what they leave alone."""
import itertools
import warnings
import numpy as np
from mc import atoms as A, losses as L, ref
from checks.c13_cox import reference as cox_reference, risk
from checks.c14_multi import multi_ref

PROPERTY = "C21"
LEVEL = "model_checking"
RULE = ("every estimator x penalty (bound, Lagrange, cone) x case weights x offset x trials x scale x elastic net x own quadratic x starting "
        "point in bounds is fitted and its coefficients tested against the optimality conditions of the documented problem, with the gradient in "
        "closed form; predictions, probabilities and every score on every test set (single rows included) with and without sample weights are "
        "compared with closed forms; all sequences of fits, clones and parameter changes are explored")
ASSUMPTIONS = ["R2 is compared without weights and offsets only", "accuracy counts cases without weights", "optimality is tested to 2e-4 of the gradient's size"]
BOUNDS = {"quick": "2 data sets of 7 cases and 3 features, 8 losses (19 estimators), 6 penalties, histories of length 3 over 7 operations",
          "thorough": "full products of weights, offset, scale, quadratic, initial value, elastic net; histories of length 4"}

XA = np.array([[1., 2., 0.], [0., 1., -1.], [-1., .5, 1.], [2., 0., .5], [.5, -1., 2.], [-1.5, 1., 0.], [1., -.5, 1.]])
XB = np.array([[0., 1., 1.], [1., -1., .5], [2., .5, 0.], [-1., 1., 1.], [.5, .5, -2.], [1., 0., 1.], [-.5, 2., 1.]])
WA, WB = np.array([1., 2., .5, 1., 0., 3., 1.]), np.array([2., 1., 1., .5, 1., 1., 0.])
OA, OB = np.array([.5, -1., 0., .25, 1., -.5, 0.]), np.array([0., .5, 1., -1., .5, 0., 2.])
Y = {"gaussian": (np.array([3., -1., 2., 4., -2., 0., 1.]), np.array([1., 0., -2., 3., 1., 5., 2.])),
     "binary": (np.array([1., 0., 1., 1., 0., 0., 0.]), np.array([0., 1., 1., 0., 0., 1., 1.])),
     "trials": (np.array([[1, 2], [0, 3], [4, 4], [2, 5], [1, 1], [0, 1], [3, 6]], float), np.array([[2, 2], [1, 3], [0, 4], [2, 3], [1, 2], [1, 1], [3, 4]], float)),
     "cox": (np.array([[2, 1], [5, 0], [1, 1], [3, 1], [7, 1], [4, 0], [3, 1]], float), np.array([[1, 1], [2, 1], [2, 0], [3, 1], [5, 1], [4, 1], [6, 0]], float)),
     "multinomial": (np.eye(3)[[0, 1, 2, 0, 1, 0, 2]], np.eye(3)[[1, 1, 2, 0, 0, 2, 2]]),
     "counts": (np.array([[1, 0, 2], [3, 1, 1], [0, 2, 0], [1, 0, 0], [2, 2, 1], [0, 0, 3], [1, 1, 1]], float),
                np.array([[0, 1, 0], [1, 1, 1], [2, 0, 0], [0, 3, 1], [1, 0, 2], [0, 0, 1], [2, 1, 0]], float))}
EPS = .5
FAM = dict((f.name, f) for f in L.families())


def fg(loss, z, resp, w):
    """value and gradient of the weighted loss at the linear predictors z"""
    if loss == "cox":
        f, g, _ = cox_reference(risk(resp[:, 0]), resp[:, 1], w, z[None])
        return f[0], g[0]
    if loss == "multinomial":
        f, g = multi_ref(resp, z, False)
        return (w * f).sum(), w[:, None] * g
    fam = FAM[loss]
    r = {"gaussian": (resp,), "huber": (resp, EPS), "huber_svm": (resp, EPS)}.get(loss)
    if r is None:
        r = (resp, None) if resp.ndim == 1 else (resp[:, 0], resp[:, 1])
    return (w * fam.f(z, r)).sum(), w * fam.g(z, r)


LOSSES = [("gaussian", "gaussian"), ("huber", "gaussian"), ("huber_svm", "binary"), ("logistic", "binary"), ("logistic", "trials"), ("probit", "binary"),
          ("probit", "trials"), ("cloglog", "binary"), ("cloglog", "trials"), ("cox", "cox"), ("multinomial", "multinomial"), ("multinomial", "counts")]


def penalties(loss):
    if loss == "multinomial":
        cs, want = A.matrix((3, 3)), [("l1_l2(3,3).lagrange", .8), ("l1_l2(3,3).bound", 1.), ("l1_l1(3,3).lagrange", .5), ("nuclear_norm(3,3).bound", .7)]
    else:
        cs = A.basic(3) + A.structured(3)
        want = [("l1norm(3).lagrange", .8), ("l1norm(3).bound", .7), ("l2norm(3).bound", .5), ("weighted_l1norm[0,1,2].lagrange", .7),
                ("group_lasso[001;].lagrange", .6), ("nonnegative(3)", None)]
    d = dict((c.name, c) for c in cs)
    return [(d[n], p) for n, p in want]


def dataset(kind, which, cw, off):
    """(X, y as given, response, weights, offset)"""
    X, resp, w, o = (XA, Y[kind][0], WA, OA) if which == 0 else (XB, Y[kind][1], WB, OB)
    cols = [resp if resp.ndim == 2 else resp[:, None]] + ([w[:, None]] if cw else []) + ([o[:, None]] if off else [])
    y = np.hstack(cols) if cw or off else resp
    return X.copy(), y.copy(), resp, (w if cw else np.ones(len(X))), (o if off else np.zeros(len(X)))


def linpred(X, b, off):
    z = X.dot(b)
    return z - (off if z.ndim == 1 else off[:, None])


TIGHT = dict(tol=1e-13, min_its=30, max_its=3000)


class Config(object):
    """one estimator with everything known about the problem it should solve"""

    def __init__(self, loss, kind, form, case, param, cw=False, off=False, coef=1., quad=None, initial=None, alpha=0., unpen=False, own=None):
        self.loss, self.kind, self.form, self.case, self.param, self.cw, self.off, self.coef = loss, kind, form, case, param, cw, off, coef
        self.quad, self.initial, self.alpha, self.unpen, self.own = quad, initial, alpha, unpen, own
        self.info = dict(estimator="%s%s" % (loss, form and "_" + form), response=kind, penalty=case.name, param=param, case_weights=cw, offset=off, coef=coef,
                         quadratic=repr(quad), initial=initial is not None, enet_alpha=alpha, unpenalized=unpen, atom_quadratic=repr(own))
        self.seen = []

    def quadratic(self, q):
        from regreg.identity_quadratic import identity_quadratic
        return None if q is None else identity_quadratic(*[np.array(v) if isinstance(v, np.ndarray) else v for v in q])

    def build(self, **over):
        import regreg.sklearn.api as S
        case, own, seen, quadratic = self.case, self.own, self.seen, self.quadratic
        kw = dict(case_weights=self.cw, coef=self.coef)
        if "classifier" not in self.form:
            kw["offset"] = self.off
        args = (EPS,) if self.loss.startswith("huber") else ()

        def extra():
            return {} if own is None else dict(quadratic=quadratic(own))
        if self.lagrange():
            def construct(score, frac):
                seen.append(np.array(score))
                return case.make(frac * case.pair.gauge(score), **extra())
            params = dict(frac=self.param)
            kw["enet_alpha"] = self.alpha
            if self.unpen:
                kw["unpenalized"] = True
        else:
            def construct(**k):
                return case.make(k.get("param"), **extra())
            params = dict(param=self.param)
            if self.quad is not None:
                kw["quadratic"] = quadratic(self.quad)
        if self.initial is not None:
            kw["initial"] = self.initial.copy()
        if not args and "classifier" not in self.form:
            kw["solve_args"] = dict(TIGHT)
        kw.update(over)
        e = getattr(S, self.loss + (self.form and "_" + self.form))(*(args + (construct, params)), **kw)
        if "solve_args" not in kw:
            e.solve_args = dict(TIGHT)
        return e

    def lagrange(self):
        return self.form.endswith("lagrange")

    def gradient(self, b, data, coef=None):
        X, y, resp, w, off = data
        return (self.coef if coef is None else coef) * X.T.dot(fg(self.loss, linpred(X, b, off), resp, w)[1])

    def null(self, data, coef):
        """gradient at the null solution: zero, or the minimiser over the coordinates without penalty"""
        p = np.zeros((3, 3) if self.loss == "multinomial" else 3)
        if self.unpen:
            free = np.array([self.case.pair.g(e) == 0 for e in np.eye(3)])
            for _ in range(200):
                g = self.gradient(p, data, coef)[free]
                if np.abs(g).max() < 1e-12:
                    break
                H = np.empty((free.sum(), free.sum()))
                for k, i in enumerate(np.nonzero(free)[0]):
                    d = np.zeros(3)
                    d[i] = 1e-5
                    H[:, k] = (self.gradient(p + d, data, coef) - self.gradient(p - d, data, coef))[free] / 2e-5
                p[free] -= np.linalg.solve(H + 1e-10 * np.eye(len(H)), g)
        return self.gradient(p, data, coef)

    def optimal(self, b, data, coef=None, param=None, seen=None):
        """what is wrong with b as the solution, or None"""
        coef, param = self.coef if coef is None else coef, self.param if param is None else param
        if b is None or not np.all(np.isfinite(b)):
            return "coefficients %r" % (b,)
        u = -self.gradient(b, data, coef)
        size = max(1., np.abs(self.gradient(0 * b, data, coef)).max())
        if self.quad is not None:
            u = u - ref.q_grad(self.quad, b)
        if self.own is not None:
            u = u - ref.q_grad(self.own, b)
        if self.lagrange():
            null = self.null(data, coef)
            if seen is not None and not np.allclose(seen[-1], null, atol=2e-4 * size):
                return "the atom is built from the score %r, the null solution has %r" % (seen[-1].tolist(), null.tolist())
            lam = param * self.case.pair.gauge(null)
            u = u - self.alpha * lam * b
            param = (1 - self.alpha) * lam
        tol = 2e-4 * size
        y = np.where(np.abs(b) < 1e-6, 0, b)
        u = np.where(np.abs(u) < tol, 0, u)
        if not self.case.ok(param, y, u, tol) or not self.case.ok(param, b, u, tol):      # ok returns what is wrong
            return None
        return "coefficients %r have the negative gradient %r, which is no subgradient of the penalty (%r)" % (b.tolist(), u.tolist(), param)


def binary(loss):
    return loss in ("logistic", "probit", "cloglog")


def configs(loss, kind, tier):
    shape = (3, 3) if loss == "multinomial" else (3,)
    quads = [None, (.5, None, np.resize([.5, -.25, 0.], shape), 1.), (1., np.resize([.5, 0., -1.], shape), 0, 0)]
    start = np.resize([.5, -.5, 1.], shape)
    forms = ["", "lagrange"]
    if kind in ("binary", "multinomial") and loss in ("logistic", "probit", "cloglog", "multinomial"):
        forms += ["classifier", "classifier_lagrange"]
    for form in forms:
        m = 0
        for case, param in penalties(loss):
            if form.endswith("lagrange") and case.kind != "lagrange":
                continue
            weighted = case.name.startswith("weighted")
            for cw, off in itertools.product((False, True), (False, True) if "classifier" not in form else (False,)):
                for coef in (1., 2.5):
                    if form.endswith("lagrange"):
                        rest = [dict(alpha=a, own=o) for a in (0., .5, 1.) for o in (None, quads[1])]
                        if form == "lagrange" and not loss.startswith("huber"):
                            rest += [dict(initial=start)] + ([dict(unpen=True)] if weighted else [])
                        frac = (.5, 1.2) if not weighted or loss != "multinomial" else (.5,)
                        rest = [dict(r, p=f) for r in rest for f in frac]
                    else:
                        rest = [dict(quad=q, initial=s, p=param) for q in (quads if not loss.startswith("huber") else [None]) for s in (None, start)
                                if s is None or not loss.startswith("huber")] + [dict(own=quads[1], p=param)]
                    for r in rest:
                        m += 1
                        r = dict(r)
                        p = r.pop("p")
                        # an unpenalised direction along which the data separate has no solution
                        if weighted and form.endswith("lagrange") and not r.get("unpen"):
                            continue
                        if tier == "quick" and m % 4:
                            continue
                        yield Config(loss, kind, form, case, p, cw, off, coef, **r)


def units(tier):
    us = [("fit/%s/%s/%d" % (l + (i,)), ("fit",) + l + (i, 2)) for l in LOSSES for i in range(2)]
    us += [("history/%s/%s" % l, ("history",) + l + (0, 1)) for l in LOSSES]
    us += [("folds/%s/%s" % l, ("folds",) + l + (0, 1)) for l in LOSSES if l[0] in ("gaussian", "logistic", "cloglog", "huber")]
    return us


def run(R, name, args, tier):
    what, loss, kind, i, n = args
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + what](R, loss, kind, i, n, tier)


def run_fit(R, loss, kind, i, n, tier):
    for c in list(configs(loss, kind, tier))[i::n]:
        R.state()
        R.context = lambda: c.info
        with R.guard("fit:%s%s" % (loss, c.form and ":" + c.form), c.info):
            e = c.build()
            for which in (0, 1):
                fit_once(R, c, e, which)
            if c.initial is not None:       # started at the solution, one step stays there
                b = np.array(e._coefs)
                again = c.build(initial=b.copy())
                again.solve_args = dict(max_its=1, min_its=1)
                last = dataset(kind, 1, c.cw, c.off)
                again.fit(last[0], last[1])
                R.check(np.allclose(again._coefs, b, atol=1e-4 * max(1, np.abs(b).max())), "initial:%s%s" % (loss, c.form and ":" + c.form),
                        lambda: "one step from the solution %r given as starting point goes to %r" % (b.tolist(), again._coefs.tolist()), c.info)
            other = dataset(kind, 0, c.cw, c.off)
            judge(R, c, e, other, "other")
            judge(R, c, e, tuple(v[2:3] for v in other), "single")
            judge(R, c, e, tuple(v[:4] for v in other), "some")
        R.outcome("%s:%s" % (loss, c.form))


def fit_once(R, c, e, which, coef=None, param=None, more=None):
    key = "fit:%s%s" % (c.loss, c.form and ":" + c.form)
    info = dict(c.info, data=which, **(more or {}))
    data = dataset(c.kind, which, c.cw, c.off)
    keep = [v.copy() for v in data]
    before = params(e)
    R.trans()
    del c.seen[:]
    out = e.fit(data[0], data[1])
    R.trace()
    R.check(out is e, key + ":self", "fit does not return the estimator", info)
    bad = c.optimal(e._coefs, data, coef, param, c.seen or None)
    R.check(bad is None, key, lambda: bad, info)
    R.check(all(np.array_equal(a, b) for a, b in zip(keep, data)), key + ":mutates", "the data were modified", info)
    R.check(params(e) == before, key + ":parameters", lambda: "parameters changed from %r to %r" % (before, params(e)), info)
    judge(R, c, e, data, "training", more)


def params(e):
    return dict((k, repr(v)) for k, v in e.get_params(deep=False).items())


def null_constant(c, resp):
    if c.kind == "trials":
        pi = resp[:, 0].sum() / resp[:, 1].sum()
    else:
        pi = resp.mean()
    return {"logistic": lambda: np.log(pi / (1 - pi)), "probit": lambda: __import__("scipy.stats", fromlist=["norm"]).norm.ppf(pi),
            "cloglog": lambda: np.log(-np.log(1 - pi))}.get(c.loss, lambda: pi)()


def close(a, b):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - b) <= 1e-9 + 1e-7 * np.abs(b)))


def judge(R, c, e, data, tag, more=None):
    """predictions and scores of a fitted estimator on some data"""
    X, y, resp, w, off = data
    b = np.array(e._coefs)
    key = "%s:%s%s" % (tag if tag == "single" else "predict", c.loss, c.form and ":" + c.form)
    info = dict(c.info, on=tag, coefs=b, **(more or {}))
    y0, X0 = y.copy(), X.copy()
    lin = X.dot(b)
    z = linpred(X, b, off)
    n = len(X)
    with R.guard(key, info):
        R.trans()
        got = e.predict(X)
        prob = {"logistic": L.expit, "probit": lambda t: FAM["probit"].mean(t), "cloglog": lambda t: -np.expm1(-np.exp(t))}.get(c.loss)
        if "classifier" in c.form:
            want = (lin > {"cloglog": np.log(np.log(2))}.get(c.loss, 0)) if c.loss != "multinomial" else np.argmax(lin, 1)
            R.check(np.shape(got) == np.shape(want) and np.array_equal(got, want), key + ":label", lambda: "labels %r, should be %r" % (got, want), info)
            P = e.predict_proba(X)
            if c.loss == "multinomial":
                wp = np.exp(lin - lin.max(1, keepdims=True))
                wp = wp / wp.sum(1, keepdims=True)
            else:
                wp = prob(lin)
            R.check(close(P, wp), key + ":probability", lambda: "probabilities %r, should be %r" % (P, wp), info)
        else:
            R.check(close(got, lin), key + ":linear", lambda: "predictions %r, should be %r" % (got, lin), info)
        methods = ["accuracy"] if "classifier" in c.form else ["deviance", "mean_deviance", "R2"] + (["accuracy"] if c.kind in ("binary", "multinomial") and c.loss != "huber_svm" else [])
        for method, sw in itertools.product(methods, (None, (WB if tag != "some" else WA)[:n] + .5)):
            if sw is not None and method not in ("deviance", "mean_deviance"):
                continue
            two = 1. if c.loss.startswith("huber") else 2.
            dev = two * fg(c.loss, z, resp, w * (1 if sw is None else sw))[0]
            if method == "deviance":
                want = -dev
            elif method == "mean_deviance":
                want = -dev / n
            elif method == "R2":
                if c.cw or c.off or n == 1:
                    continue
                if c.loss == "multinomial":
                    t = resp.sum(0) / resp.sum() if c.kind == "counts" else resp.mean(0)
                    const = np.log(t) * np.ones_like(resp)
                else:
                    const = null_constant(c, resp) * np.ones(n)
                if not np.all(np.isfinite(const)):
                    continue
                want = 1 - dev / (two * fg(c.loss, const, resp, w)[0])
            elif c.loss == "multinomial":
                want = np.mean(np.argmax(z, 1) == np.argmax(resp, 1))
            else:
                want = np.mean((z > (np.log(np.log(2)) if c.loss == "cloglog" else 0)) == (resp > 0))
            e.score_method = method
            kw = {} if sw is None else dict(sample_weight=sw.copy())
            s = e.score(X, y, **kw)
            R.trans()
            R.check(np.ndim(s) == 0 and close(s, want), key + ":" + method, lambda: "%s %r, should be %r" % (method, s, want),
                    lambda: dict(info, sample_weight=sw, y=y))
            R.check(sw is None or np.array_equal(kw["sample_weight"], sw), key + ":sample_weight", "sample weights modified", info)
        R.check(np.array_equal(y, y0) and np.array_equal(X, X0), key + ":mutates", "predicting or scoring modified the data", info)
        R.check(np.array_equal(e._coefs, b), key + ":coefs", "predicting or scoring modified the coefficients", info)


def run_history(R, loss, kind, i, n, tier):
    """all sequences of operations on an estimator and its clone; after each fit the problem with the current parameters is solved"""
    from sklearn.base import clone
    case, param = penalties(loss)[0]
    ops = ("fit0", "fit1", "clone", "coef", "param", "edit", "score")
    for form in ("", "lagrange"):
        for cw in (False, True):
            for seq in itertools.product(ops, repeat=3 if tier == "quick" else 4):
                if not any(o.startswith("fit") for o in seq):
                    continue
                if tier == "quick" and cw == (form == ""):
                    continue
                c = Config(loss, kind, form, case, param if not form else .5, cw, cw)
                R.state()
                more = dict(operations=repr(seq))
                with R.guard("history:%s" % loss, dict(c.info, **more)):
                    e = c.build()
                    coef, p, fitted, old = 1., c.param, None, []
                    for o in seq:
                        if o.startswith("fit"):
                            fit_once(R, c, e, int(o[3]), coef, p, more)
                            fitted = int(o[3])
                        elif o == "clone":
                            if fitted is not None:
                                old.append((e, np.array(e._coefs), fitted))
                            e = clone(e)
                            if loss.startswith("huber"):
                                e.solve_args = dict(TIGHT)
                            R.check(not hasattr(e, "_coefs"), "history:clone", "a clone is already fitted", dict(c.info, **more))
                            fitted = None
                        elif o == "coef":
                            coef = 2.5
                            e.set_params(coef=2.5)
                        elif o == "param":
                            p = .4
                            e.set_params(atom_params=dict(frac=.4) if form else dict(param=.4))
                        elif o == "edit":       # an entry of the dictionary of parameters
                            p = .3
                            e.atom_params["frac" if form else "param"] = .3
                        elif fitted is not None:
                            judge(R, c, e, dataset(kind, 1 - fitted, cw, cw), "other", more)
                    for x, b, f in old:
                        R.check(np.array_equal(x._coefs, b), "history:original", "work on a clone changed the original", dict(c.info, **more))
                R.outcome("history:" + form)


def run_folds(R, loss, kind, i, n, tier):
    """scikit-learn's own leave-one-out loop: one fit and one score per case, each compared with the closed form"""
    from sklearn.model_selection import cross_validate, LeaveOneOut
    for case, param in penalties(loss)[:2]:
        for cw, off in itertools.product((False, True), repeat=2):
            c = Config(loss, kind, "", case, param, cw, off)
            info = dict(c.info, leave_one_out=True)
            R.state()
            with R.guard("folds:%s" % loss, info):
                X, y, resp, w, off_ = data = dataset(kind, 0, cw, off)
                e = c.build()
                out = cross_validate(e, X, y, cv=LeaveOneOut(), return_estimator=True, error_score="raise") if not loss.startswith("huber") else None
                if out is None:
                    continue
                for k in range(len(X)):
                    tr = np.arange(len(X)) != k
                    train = tuple(v[tr] for v in data)
                    bad = c.optimal(out["estimator"][k]._coefs, train)
                    R.check(bad is None, "folds:%s" % loss, lambda: bad, dict(info, left_out=k))
                    z = linpred(X[[k]], out["estimator"][k]._coefs, off_[[k]])
                    want = -2 * fg(loss, z, resp[[k]], w[[k]])[0]
                    R.trace()
                    R.check(close(out["test_score"][k], want), "folds:%s:score" % loss, lambda: "score %r of the case left out, should be %r" % (out["test_score"][k], want),
                            dict(info, left_out=k))
            R.outcome("folds")
