"""Generalised linear model losses: value, gradient and Hessian against stable closed forms."""
import itertools
import warnings
import numpy as np
from scipy import sparse
from mc import losses as L, affine as F, buffers

PROPERTY = "C12"
LEVEL = "model_checking"
RULE = ("every loss family x response x trials x scale x offset x weights given at construction x weights given per call x linear "
        "predictor in bounds (all triples of the grid), for the saturated loss, and every design form x option x coefficient vector "
        "for the regression loss; value, gradient, Hessian and every evaluation mode against closed forms evaluated stably")
ASSUMPTIONS = ["for probit and complementary log-log the Hessian is the expected one (Fisher information), as the code computes it",
               "values are compared without the additive constant the saturated losses keep in their quadratic, which is compared separately",
               "the design of a regression loss acts through its linear part (transforms with an offset are not explored)"]
BOUNDS = {"quick": "3 cases, 14 values of the linear predictor from -150 to 200 (all triples of 7 of them), 8 families of responses, 2 coefficients",
          "thorough": "all triples of 14 values, 3 coefficients with the full option product"}


def units(tier):
    out = []
    for i, f in enumerate(L.families()):
        for k in range(len(f.responses)):
            out.append(("saturated/%s/%d" % (f.name, k), ("saturated", i, k)))
            out.append(("regression/%s/%d" % (f.name, k), ("regression", i, k)))
    return out


def weight(name, args):
    return 3 if args[0] == "saturated" else 2


def run(R, name, args, tier):
    fam = L.families()[args[1]]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        (saturated if args[0] == "saturated" else regression)(R, fam, fam.responses[args[2]], tier)


def close(a, b, rtol=1e-7, atol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


W1, W2, OFF = np.array([1., 0., 2.]), np.array([.5, 3., 1.]), np.array([.5, -1., 2.])


def saturated(R, fam, resp, tier):
    eta = fam.eta
    few = eta[[1, 3, 5, 6, 8, 10, 13]]
    points = [np.array(p) for p in itertools.product(few, repeat=3)] if tier == "quick" else [np.array(p) for p in itertools.product(eta, repeat=3)]
    points += [np.full(3, e) for e in eta] + [np.roll([e, 0.5, -1.], k) for e in eta for k in range(3)]
    points += [np.array(p) for p in itertools.product((-1, 0, 2), repeat=3)]            # integer arguments
    for coef, off, own, call in itertools.product((1., 2.5), (None, OFF), (None, W1), (None, W2)):
        info = dict(family=fam.name, response=resp, coef=coef, offset=off, weights=own, call_weights=call)
        key = "saturated:%s" % fam.name
        R.context = info
        loss = None
        with R.guard(key + ":construct", info):
            loss = fam.saturated(resp, coef=coef, offset=None if off is None else off.copy(), case_weights=None if own is None else own.copy())
        if loss is None:
            return
        R.state()
        some = points if (coef, off is None) in ((1., True), (2.5, False)) else points[::5]
        w = np.ones(3) * (1 if own is None else own) * (1 if call is None else call)
        for x in some:
            z = x - off if off is not None else x.astype(float)
            f, g = coef * (w * fam.f(z, resp)).sum(), coef * w * fam.g(z, resp)
            case = lambda: dict(info, eta=x)
            cw = {} if call is None else dict(case_weights=call.copy())
            R.trans()
            with R.guard(key, case):
                x0 = x.copy()
                v = loss.smooth_objective(x, "func", **cw)
                d = loss.smooth_objective(x, "grad", **cw)
                both = loss.smooth_objective(x, "both", **cw)
                R.check(close(v, f), key + ":value", lambda: "value %r, should be %r" % (v, f), case)
                R.check(close(d, g), key + ":gradient", lambda: "gradient %r, should be %r" % (d, g), case)
                R.check(close(both[0], v) and close(both[1], d), key + ":modes", "modes disagree", case)
                R.check(np.array_equal(x, x0) and (call is None or np.array_equal(cw["case_weights"], call)) and
                        (own is None or np.array_equal(loss.case_weights, own)), key + ":mutates", "argument or weights modified", case)
                R.trace()
            if fam.h is not None:
                with R.guard(key + ":hessian", case):
                    h = loss.hessian(x, **cw)
                    want = coef * w * fam.h(z, resp)
                    R.check(close(h, want), key + ":hessian", lambda: "second derivative %r, should be %r" % (h, want), case)
                    R.check(call is None or np.array_equal(cw["case_weights"], call), key + ":hessian:mutates", "weights modified", case)
            if fam.mean is not None and off is None:
                with R.guard(key + ":mean", case):
                    m = loss.mean_function(x.copy())
                    R.check(close(m, fam.mean(x.astype(float))), key + ":mean", lambda: "mean %r, should be %r" % (m, fam.mean(x.astype(float))), case)
            R.outcome(fam.name)
        with R.guard(key + ":mode", info):
            try:
                loss.smooth_objective(points[0], "nonsense")
                R.fail(key + ":mode", "an unknown mode was accepted", info)
            except ValueError:
                pass
        if coef != 1.:
            calls = [(m, "eta", lambda l, x, m=m: l.smooth_objective(x, m)) for m in ("both", "func", "grad")]
            calls += [(m + " with weights", "weights", lambda l, w, m=m: l.smooth_objective(points[8], m, case_weights=w)) for m in ("func", "grad")]
            calls += [("hessian", "eta", lambda l, x: l.hessian(x)), ("hessian with weights", "weights", lambda l, w: l.hessian(points[8], case_weights=w))] if fam.h is not None else []
            calls += [("mean", "eta", lambda l, x: l.mean_function(x))] if fam.mean is not None else []
            buffers.explore(R, key + ":calls", lambda: fam.saturated(resp, coef=coef, offset=None if off is None else off.copy(), case_weights=None if own is None else own.copy()),
                            calls, dict(eta=[points[8].astype(float), points[-30].astype(float) / 2], weights=[W1, W2]), info, fresh=False)
        deviance(R, fam, resp, loss, coef, off, own, key, info)
    for bad in (np.array([1., -1., 1.]), np.ones(2)):
        try:
            fam.saturated(resp, case_weights=bad)
            R.check(bad.shape == (2,) and fam.name == "poisson", "saturated:%s:bad-weights" % fam.name, "negative or misshapen weights were accepted", dict(weights=bad))
        except ValueError:
            pass


def deviance(R, fam, resp, loss, coef, off, own, key, info):
    """the likelihoods carry a constant that makes the objective half the deviance: zero at the saturated fit, the same for copies"""
    from copy import copy
    with R.guard(key + ":objective", info):
        c = loss.objective(np.zeros(3)) - loss.smooth_objective(np.zeros(3), "func")
        cp = copy(loss)
        R.check(close(cp.objective(np.ones(3)), loss.objective(np.ones(3))), key + ":copy-objective",
                lambda: "the copy's objective is %r, the original's %r" % (cp.objective(np.ones(3)), loss.objective(np.ones(3))), info)
        if fam.name in ("logistic", "probit", "cloglog", "poisson") and own is None:
            y = np.asarray(resp[0], float)
            if fam.name == "poisson":
                want = coef * (np.where(y > 0, y * np.log(np.maximum(y, 1)), 0) - y).sum()
            else:
                p = y / L._trials(resp)
                lg = lambda a: np.where(a > 0, np.log(np.where(a > 0, a, 1)), 0)
                want = coef * (y * lg(p) + (L._trials(resp) - y) * lg(1 - p)).sum()
            R.check(close(c, want), key + ":deviance", lambda: "constant %r, half the deviance needs %r" % (c, want), info)
        R.trans()


def designs():
    import regreg.affine as ra
    A = np.array([[1., 2.], [-1., .5], [0., 3.]])
    yield "dense", A, lambda: A.copy(), True
    yield "int", np.round(A), lambda: np.round(A).astype(int), True
    yield "fortran", A, lambda: np.asfortranarray(A), True
    for f in ("csr", "csc", "coo"):
        yield f, A, lambda f=f: getattr(sparse, f + "_matrix")(A), True
    yield "transform", A, lambda: ra.astransform(A.copy()), False
    yield "normalized", (A - A.mean(0)) / A.std(0, ddof=1), lambda: ra.normalize(A.copy()), False
    yield "selection", np.column_stack([A[:, 1], A[:, 0]]), lambda: ra.selector([1, 0], (2,), ra.astransform(A.copy())), False
    yield "wide", np.hstack([A, A[:, :1] + 1]), lambda: np.hstack([A, A[:, :1] + 1]), True


def regression(R, fam, resp, tier):
    grid = (-1., 0., .5) if tier == "quick" else (-2., -.5, 0., 1.)
    offs = lambda p: (None, np.resize([.5, -1.], p))
    for dname, A, make, dense in designs():
        p = A.shape[1]
        for coef, off, soff, w in itertools.product((1., 2.5), offs(p), (None, OFF), (None, W1, np.array([2, 1, 0]))):
            if tier == "quick" and coef == 1. and (off is None) != (soff is None):
                continue
            info = dict(family=fam.name, response=resp, design=dname, coef=coef, offset=off, saturated_offset=soff, weights=w)
            key = "regression:%s" % fam.name
            R.context = info
            loss = None
            X = make()
            kw = dict(coef=coef, offset=None if off is None else off.copy(), saturated_offset=None if soff is None else soff.copy(),
                      case_weights=None if w is None else w.copy())
            with R.guard(key + ":construct", info):
                loss = fam.glm(X, resp, **kw)
            if loss is None:
                continue
            R.state()
            W = np.ones(3) if w is None else w
            outer = 3. if (off is None) == (w is None) else 1.
            if outer != 1:
                loss.coef = outer      # the regression loss has a coefficient of its own
            for beta in itertools.product(grid, repeat=p):
                b = np.array(beta)
                z = A @ (b - (0 if off is None else off)) - (0 if soff is None else soff)
                f, g = outer * coef * (W * fam.f(z, resp)).sum(), outer * coef * A.T @ (W * fam.g(z, resp))
                case = lambda: dict(info, beta=b, own_coef=outer)
                R.trans()
                with R.guard(key, case):
                    b0 = b.copy()
                    v, d = loss.smooth_objective(b, "func"), loss.smooth_objective(b, "grad")
                    both = loss.smooth_objective(b, "both")
                    R.check(close(v, f), key + ":value", lambda: "value %r, should be %r" % (v, f), case)
                    R.check(close(d, g), key + ":gradient", lambda: "gradient %r, should be %r" % (d, g), case)
                    R.check(close(both[0], v) and close(both[1], d) and close(loss.objective(b), v) and close(loss.gradient(b), d), key + ":modes",
                            "evaluation modes disagree", case)
                    R.check(close(loss.linear_predictor(b), A @ b), key + ":linear_predictor", "linear predictor is not X beta", case)
                    R.check(np.array_equal(b, b0) and np.array_equal(loss.case_weights, W), key + ":mutates", "argument or weights modified", case)
                    R.trace()
                if dense and fam.h is not None:
                    with R.guard(key + ":hessian", case):
                        H = np.asarray(loss.hessian(b))
                        want = outer * coef * A.T @ ((W * fam.h(z, resp))[:, None] * A)
                        R.check(close(H, want), key + ":hessian", lambda: "Hessian %r, should be %r" % (H.tolist(), want.tolist()), case)
            if coef != 1. and (off is None) == (soff is None):
                calls = [(m, "beta", lambda l, x, m=m: l.smooth_objective(x, m)) for m in ("both", "func", "grad")]
                calls += [("linear predictor", "beta", lambda l, x: l.linear_predictor(x)), ("objective", "beta", lambda l, x: l.objective(x))]
                calls += [("hessian", "beta", lambda l, x: l.hessian(x))] if dense and fam.h is not None else []
                buffers.explore(R, key + ":calls", lambda: loss, calls, dict(beta=[np.resize([.5, -1., 0.], p), np.resize([0., .25, 1.], p)]), info, fresh=False)
            now = kw["case_weights"]
            R.check(now is None or np.array_equal(now, w), key + ":mutates", "the caller's weights were modified", info)
            fresh = make()
            if isinstance(X, np.ndarray):
                R.check(np.array_equal(X, fresh), key + ":mutates", "the design was modified", info)
            R.outcome(dname)
