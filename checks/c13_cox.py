"""Cox partial likelihood (Breslow ties): value, gradient, Hessian against the definition over risk sets."""
import itertools
import warnings
import numpy as np
from mc import buffers

PROPERTY = "C13"
LEVEL = "model_checking"
RULE = ("every weak ordering of the event times (all ties included) x every failure/censoring pattern x every assignment of case weights "
        "(zero included) x scale x offset x linear predictor in bounds; value, gradient, Hessian-vector product and all evaluation modes "
        "against the partial likelihood computed from the risk sets by definition; the same through a design matrix")
ASSUMPTIONS = ["linear predictors are moderate (|eta| <= 300), so that exp does not overflow",
               "ties are handled as by Breslow, which is what the code documents through its risk sets",
               "at least one case has positive weight"]
BOUNDS = {"quick": "3 cases: 13 orderings x 8 patterns x 27 weight vectors x 64 predictors; 4 cases: 75 x 16 x 16 x 6; 3-4 cases with a design",
          "thorough": "3 cases with 216 predictors and 64 weight vectors; 4 cases: 75 x 16 x 81 x 24; 5 cases: 541 orderings x 32 patterns x 8 x 3"}


def weak_orderings(n):
    for t in itertools.product(range(n), repeat=n):
        if set(t) == set(range(max(t) + 1)):
            yield t


def units(tier):
    out = []
    for n in ((3, 4) if tier == "quick" else (3, 4, 5)):
        parts = 4 if tier == "quick" and n == 3 else {3: 4, 4: 16, 5: 32}[n]
        out += [("saturated/%d/%d" % (n, k), ("saturated", n, k, parts)) for k in range(parts)]
        if n < 5:
            out.append(("design/%d" % n, ("design", n, 0, 1)))
    return out


def weight(name, args):
    return 2 if args[0] == "saturated" else 3


def risk(times):
    t = np.asarray(times, float)
    return (t[None, :] >= t[:, None]).astype(float)


def reference(R, c, w, eta):
    """eta: (m,n) -> values, gradients (m,n), risk probabilities P (m,n,n)"""
    s = w * np.exp(eta)
    S = s @ R.T                                                   # S[m,i]: weight at risk when i fails
    act = (c * w) > 0
    with np.errstate(all="ignore"):
        logS = np.where(act, np.log(S), 0.)
        P = np.where(act[None, :, None], R[None] * s[:, None, :] / S[:, :, None], 0.)
    f = ((c * w) * (logS - np.where(act, eta, 0))).sum(1)
    g = ((c * w)[None, :, None] * P).sum(1) - c * w
    return f, g, P


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def predictors(n, tier):
    if n == 3:
        return np.array(list(itertools.product((-2., 0., 1., 30.) if tier == "quick" else (-30., -2., 0., .5, 1., 3.), repeat=3)))
    base = [np.zeros(n), np.arange(n) * 1., -.5 * np.arange(n), np.resize([3., -3.], n), np.resize([0., 40., 1.], n), np.resize([-1., 2., 2., .5], n)]
    if tier != "quick" and n == 4:
        base += [np.array(p) for p in itertools.permutations((-1., 0., 2., 5.))][:18]
    return np.array(base[:3] if n == 5 else base)


def weights(n, tier):
    if n == 3:
        vals = (0., 1., 2.5) if tier == "quick" else (0., .5, 1., 2.5)
        return [np.array(p) for p in itertools.product(vals, repeat=3) if any(p)]
    if n == 4:
        return [np.array(p) for p in itertools.product((0., 1.) if tier == "quick" else (0., 1., 2.), repeat=4) if any(p)]
    return [np.ones(5), np.array([0, 1, 1, 1, 2.]), np.array([1., 0, 1, 0, 1]), np.array([1., 1, 1, 1, 0]), np.array([2., 0, 0, 1, 0]), np.eye(5)[2] * 3,
            np.array([.5, 1, 2, 3, 4]), np.array([0, 0, 0, 1., 1])]


def run(R, name, args, tier):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        (saturated if args[0] == "saturated" else design)(R, tier, *args[1:])


def saturated(R, tier, n, k, parts):
    from regreg.smooth.cox import cox_loglike
    etas = predictors(n, tier)
    vs = [np.arange(n) * 1. - 1, np.resize([1., -2., .5], n)]
    cells = list(itertools.product(weak_orderings(n), itertools.product((0, 1), repeat=n)))[k::parts]
    off = np.resize([.5, -1., 2.], n)
    for i, (order, cens) in enumerate(cells):
        c = np.array(cens)
        times = [1. + t for t in order] if i % 2 else [3 * t for t in order]          # floats and integers
        for own in [None] + weights(n, tier):
            # the same weights may be given at construction, per call, or split over both
            for how in ("own", "call", "both") if own is not None and (n == 3 or tier != "quick") else ("own",):
                coef, o = ((1., None), (2.5, off))[(i + (how == "call")) % 2]
                w = np.ones(n) if own is None else own.copy()
                info = dict(times=times, censoring=cens, weights=own, given=how, coef=coef, offset=o)
                R.context = info
                loss = None
                kw = {}
                if own is not None and how != "call":
                    kw["case_weights"] = own.copy() if how == "own" else np.sqrt(own)
                call = {}
                if own is not None and how != "own":
                    call = dict(case_weights=own.copy() if how == "call" else np.sqrt(own))
                with R.guard("cox:construct", info):
                    loss = cox_loglike((n,), times if i % 3 else np.array(times), list(cens) if i % 5 else np.array(cens, bool), coef=coef,
                                       offset=None if o is None else o.copy(), **kw)
                if loss is None:
                    continue
                R.state()
                Rk = risk(times)
                Z = etas if o is None else etas - o
                F, G, P = reference(Rk, c, w, Z)
                for m, eta in enumerate(etas):
                    case = lambda: dict(info, eta=eta)
                    R.trans()
                    with R.guard("cox", case):
                        e0 = eta.copy()
                        v = loss.smooth_objective(e0, "func", **call)
                        d = loss.smooth_objective(e0, "grad", **call)
                        loss.smooth_objective(etas[m - 1], "grad", **call)          # must not disturb the gradient already returned
                        b = loss.smooth_objective(e0, "both", **call)
                        R.check(close(v, coef * F[m]), "cox:value", lambda: "value %r, should be %r" % (v, coef * F[m]), case)
                        R.check(close(d, coef * G[m]), "cox:gradient", lambda: "gradient %r, should be %r" % (d, coef * G[m]), case)
                        R.check(close(b[0], coef * F[m]) and close(b[1], coef * G[m]), "cox:modes", "evaluation modes disagree", case)
                        x = vs[m % 2]
                        H = loss.hessian_mult(e0, x.copy(), **call)
                        A = (c * w)[:, None] * P[m]
                        want = coef * (A.sum(0) * x - (A * (P[m] @ x)[:, None]).sum(0))
                        R.check(close(H, want), "cox:hessian", lambda: "Hessian times v %r, should be %r" % (H, want), case)
                        R.check(np.array_equal(e0, eta), "cox:mutates", "linear predictor modified", case)
                        R.trace()
                R.outcome("%s, %d failures" % (how, (c * w > 0).sum()))
        if loss is not None and (n == 3 or i % 3 == 0):
            calls = [(m, "eta", lambda l, x, m=m: l.smooth_objective(x, m)) for m in ("both", "func", "grad")]
            calls += [(m + " with weights", "weights", lambda l, w, m=m: l.smooth_objective(etas[1], m, case_weights=w)) for m in ("func", "grad")]
            calls += [("hessian_mult", "eta", lambda l, x: l.hessian_mult(x, vs[1])), ("hessian_mult (vector)", "vector", lambda l, v: l.hessian_mult(etas[1], v))]
            buffers.explore(R, "cox:calls", lambda: loss, calls, dict(eta=[etas[1], etas[-1]], weights=[np.resize([1., 0., 2.], n), np.resize([.5, 3.], n)], vector=vs), info, fresh=False)


def design(R, tier, n, k, parts):
    from regreg.smooth.glm import glm
    from scipy import sparse
    A = np.array([[1., 2.], [-1., .5], [0., 3.], [2., -1.]])[:n]
    betas = np.array(list(itertools.product((-1., 0., .5), repeat=2)))
    boff = np.array([.5, -1.])
    for order, cens in itertools.product(weak_orderings(n), itertools.product((0, 1), repeat=n)):
        c = np.array(cens)
        if n == 4 and tier == "quick" and (c.sum() % 2 or order[0] > 1):
            continue
        times = np.array(order) + 1.
        for make, w, coef, o in ((lambda: A.copy(), None, 1., None), (lambda: sparse.csr_matrix(A), np.resize([1., 0., 2.], n), 2., boff),
                                 (lambda: np.asfortranarray(A), np.resize([0., 1., 1.], n), .5, None)):
            info = dict(times=times, censoring=cens, weights=w, coef=coef, offset=o, design=type(make()).__name__)
            R.context = info
            loss = None
            with R.guard("cox:regression:construct", info):
                loss = glm.cox(make(), times, c, coef=coef, offset=None if o is None else o.copy(), case_weights=None if w is None else w.copy())
            if loss is None:
                continue
            R.state()
            W = np.ones(n) if w is None else w
            Z = (betas if o is None else betas - o) @ A.T
            F, G, P = reference(risk(times), c, W, Z)
            for m, b in enumerate(betas):
                case = lambda: dict(info, beta=b)
                R.trans()
                with R.guard("cox:regression", case):
                    v, d = loss.smooth_objective(b, "func"), loss.smooth_objective(b, "grad")
                    both = loss.smooth_objective(b, "both")
                    R.check(close(v, coef * F[m]), "cox:regression:value", lambda: "value %r, should be %r" % (v, coef * F[m]), case)
                    R.check(close(d, coef * A.T @ G[m]), "cox:regression:gradient", lambda: "gradient %r, should be %r" % (d, coef * A.T @ G[m]), case)
                    R.check(close(both[0], v) and close(both[1], d), "cox:regression:modes", "evaluation modes disagree", case)
                    B = (c * W)[:, None] * P[m]
                    H = np.diag(B.sum(0)) - P[m].T @ B
                    got, want = np.asarray(loss.hessian(b)), coef * A.T @ H @ A
                    R.check(close(got, want), "cox:regression:hessian", lambda: "Hessian %r, should be %r" % (got.tolist(), want.tolist()), case)
                    R.trace()
            calls = [(m, "beta", lambda l, x, m=m: l.smooth_objective(x, m)) for m in ("both", "func", "grad")] + [("hessian", "beta", lambda l, x: l.hessian(x))]
            buffers.explore(R, "cox:regression:calls", lambda: loss, calls, dict(beta=[betas[1], betas[-2]]), info, fresh=False)
            R.outcome("design")
