"""Losses with several linear predictors per case (multinomial) or several responses (stacked), alone and composed with a design."""
import itertools
import warnings
from copy import copy
import numpy as np
from scipy import sparse
from mc import losses as L, buffers
from checks.c13_cox import reference as cox_reference, risk

PROPERTY = "C14"
LEVEL = "model_checking"
RULE = ("every multinomial response in bounds (both parametrisations, rows of zeros and single categories included) x scale x offset x weights "
        "at construction x weights per call x matrix of linear predictors; every pair of responses of every loss family stacked into one loss "
        "(one after another, or side by side), built directly and by the class methods; the same under every design form; value, gradient, "
        "evaluation modes, data and returned arrays against closed forms")
ASSUMPTIONS = ["stacked losses are compared without the additive constants of their members",
               "moderate linear predictors for stacked Poisson, probit, complementary log-log and Cox losses"]
BOUNDS = {"quick": "2 cases x 3 categories over 3^6 + 40 predictors up to 1000; 9 families of stacked pairs over 27 + 12 predictors; 5 designs x 9 to 81 coefficient matrices",
          "thorough": "4^6 predictors, 3 cases, every pair of responses within a family; 125 predictors per stack"}

OFF3 = np.array([.5, -1., 2.])


def units(tier):
    out = []
    for base in (False, True):
        for k in range(len(counts(tier))):
            out.append(("multinomial/%s/%d" % ("baseline" if base else "full", k), ("multinomial", base, k)))
    for i in range(len(kinds())):
        out += [("stacked/%s" % kinds()[i][0], ("stacked", i)), ("common/%s" % kinds()[i][0], ("common", i)),
                ("mglm/%s" % kinds()[i][0], ("mglm", i))]
    out += [("mglm/multinomial", ("mglm_multinomial", False)), ("mglm/multinomial-baseline", ("mglm_multinomial", True))]
    return out


def weight(name, args):
    return 4 if args[0] == "multinomial" else 2


def run(R, name, args, tier):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()[args[0]](R, tier, *args[1:])


def close(a, b, rtol=1e-7, atol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def counts(tier):
    c = [np.array([[1, 0, 2], [3, 1, 1]]), np.array([[0., 1., 0.], [2., 0., 0.]]), np.array([[0, 0, 0], [1, 4, 2]]), np.array([[5, 0], [1, 1]])]
    if tier != "quick":
        c += [np.array([[1, 0, 2], [3, 1, 1], [0, 0, 4]]), np.array([[1, 0, 2, 1], [3, 1, 0, 0]])]
    return c


def lse(x):
    m = x.max(1, keepdims=True)
    return m[:, 0] + np.log(np.exp(x - m).sum(1))


def multi_ref(c, eta, base):
    """per case value, gradient"""
    full = np.hstack([eta, np.zeros((len(eta), 1))]) if base else eta
    t = c.sum(1)
    l = lse(full)
    f = t * l - (c * full).sum(1)
    g = t[:, None] * np.exp(full - l[:, None]) - c
    return f, g[:, :eta.shape[1]]


def multinomial(R, tier, base, k):
    from regreg.smooth import mglm as M
    c = counts(tier)[k]
    n, J = c.shape
    shape = (n, J - 1) if base else (n, J)
    size = shape[0] * shape[1]
    vals = (-3., 0., 1.5) if tier == "quick" and size > 4 else (-3., -.5, 0., 2.) if size <= 6 else (-1., 2.)
    points = [np.reshape(p, shape) for p in itertools.product(vals, repeat=size)]
    pat = [np.arange(size), np.arange(size)[::-1], np.resize([1, -1], size), np.resize([1, 0, 0], size), np.resize([-1, 0, 1, 1], size)]
    points += [np.reshape(s * p, shape) for s in (-1000., -60., 40., 55., 120., 1000.) for p in pat] + [np.full(shape, s) for s in (-1000., -51., 51., 1000.)]
    points += [np.reshape(p, shape) for p in pat]                                      # integer arguments
    W1, W2 = np.resize([1., 0., 2.], n), np.resize([.5, 3.], n)
    offs = np.reshape(np.resize([.5, -1., 2.], size), shape)
    klass = M.multinomial_baseline_loglike if base else M.multinomial_loglike
    key = "multinomial-baseline" if base else "multinomial"
    for form in (lambda: c.copy(), lambda: sparse.csr_matrix(c)):
        loss = None
        with R.guard(key + ":sparse", dict(counts=c)):
            loss = klass(shape, form())
            R.check(close(loss.smooth_objective(points[3], "func"), multi_ref(c, points[3], base)[0].sum()), key + ":sparse", "value for sparse counts", dict(counts=c))
    for coef, off, own, call in itertools.product((1., 2.5), (None, offs), (None, W1), (None, W2)):
        info = dict(counts=c, baseline=base, coef=coef, offset=off, weights=own, call_weights=call)
        R.context = info
        loss = None
        with R.guard(key + ":construct", info):
            loss = klass(shape, c.copy(), coef=coef, offset=None if off is None else off.copy(), case_weights=None if own is None else own.copy())
        if loss is None:
            continue
        R.state()
        w = np.ones(n) * (1 if own is None else own) * (1 if call is None else call)
        cw = {} if call is None else dict(case_weights=call.copy())
        for x in points if (coef, own is None) in ((1., True), (2.5, False)) else points[::4]:
            case = lambda: dict(info, eta=x)
            z = x - (0 if off is None else off)
            f, g = multi_ref(c, z.astype(float), base)
            evaluate(R, key, loss, x, coef * (w * f).sum(), coef * w[:, None] * g, cw, case, points[0])
        if coef != 1.:
            call_histories(R, key, loss, points[3], points[5], info, (W1, W2))
        with R.guard(key + ":objective", info):
            t = c.sum(1, keepdims=True)
            p = np.where(c > 0, c / np.maximum(t, 1), 1)
            const = coef * (c * np.log(p)).sum()
            got = loss.objective(points[5]) - loss.smooth_objective(points[5], "func")
            R.check(close(got, const), key + ":deviance", lambda: "constant %r, half the deviance needs %r" % (got, const), info)
            cp = copy(loss)
            R.check(close(cp.objective(points[5]), loss.objective(points[5])) and cp is not loss, key + ":copy", "the copy has another objective", info)
        R.outcome(key)
    bad = [np.array([1., -1.]), np.ones(n + 1)]
    for b in bad:
        try:
            klass(shape, c.copy(), case_weights=np.resize(b, n) if b[1] < 0 else b)
            R.fail(key + ":bad-weights", "negative or misshapen weights were accepted", dict(weights=b))
        except ValueError:
            pass


def call_histories(R, key, loss, a, b, info, weights=None):
    """every short sequence of evaluations of one loss, predictor and weights living in arrays of the caller"""
    calls = [(m, "eta", lambda l, x, m=m: l.smooth_objective(x, m)) for m in ("both", "func", "grad")]
    args = dict(eta=[a.astype(float), b.astype(float)])
    if weights is not None:
        calls += [(m + " with weights", "weights", lambda l, w, m=m: l.smooth_objective(a, m, case_weights=w)) for m in ("func", "grad")]
        args["weights"] = list(weights)
    buffers.explore(R, key + ":calls", lambda: loss, calls, args, info, fresh=False)


def evaluate(R, key, loss, x, f, g, cw, case, other):
    R.trans()
    with R.guard(key, case):
        x0 = x.copy()
        v = loss.smooth_objective(x, "func", **cw)
        d = loss.smooth_objective(x, "grad", **cw)
        loss.smooth_objective(other, "grad")
        loss.smooth_objective(other, "both")
        b = loss.smooth_objective(x, "both", **cw)
        R.check(close(v, f), key + ":value", lambda: "value %r, should be %r" % (v, f), case)
        R.check(close(d, g), key + ":gradient", lambda: "gradient %r, should be %r" % (d, g), case)
        bg = np.array(b[1])
        loss.smooth_objective(other, "grad")
        R.check(close(b[0], f) and close(bg, g), key + ":modes", "evaluation modes disagree", case)
        R.check(np.array_equal(b[1], bg), key + ":alias", "a gradient returned earlier was changed by a later evaluation", case)
        R.check(np.array_equal(x, x0), key + ":mutates", "argument modified", case)
        R.trace()


# ---- stacked losses

def kinds():
    """(name, responses, saturated builder, per case value/gradient)"""
    import regreg.smooth.glm as G
    out = []
    for fam in L.families():
        rs = fam.responses if fam.name != "huber" else fam.responses[:2]
        out.append((fam.name, rs, fam.saturated, lambda z, r, w, fam=fam: ((w * fam.f(z, r)).sum(), w * fam.g(z, r))))

    def cox(r, **kw):
        return G.cox_loglike((3,), np.array(r[0]), np.array(r[1]), **kw)

    def cref(z, r, w):
        f, g, _ = cox_reference(risk(r[0]), np.array(r[1]), w, z[None])
        return f[0], g[0]
    out.append(("cox", [([2., 1., 2.], [1, 1, 0]), ([1., 2., 3.], [1, 0, 1])], cox, cref))
    return out


def pairs(kind, tier):
    name, rs = kind[:2]
    if tier != "quick":
        return [p for p in itertools.product(rs, repeat=2)]
    return [(rs[0], rs[1]), (rs[-1], rs[0])]


def by_method(klass, name, pair, **kw):
    """the class method of a stacked loss, or None where the pair cannot be expressed"""
    a = [np.array(r[0]) for r in pair]
    if name in ("logistic", "probit", "cloglog"):
        if not hasattr(klass, name) or (pair[0][1] is None) != (pair[1][1] is None):
            return None
        return getattr(klass, name)(a, trials=None if pair[0][1] is None else [np.array(r[1]) for r in pair], **kw)
    if name in ("huber", "huber_svm"):
        if pair[0][1] != pair[1][1]:
            return None
        return getattr(klass, name)(a, pair[0][1], **kw)
    if name == "cox":
        return klass.cox(a, [np.array(r[1]) for r in pair], **kw)
    return getattr(klass, name)(a, **kw)


def scaled(kind, pair, coef):
    return [kind[2](r, coef=coef) for r in pair]


GRID = (-1.5, 0., 2.)


def same_parameter(pairs_):
    return [p for p in pairs_] + [(p[0], p[0]) for p in pairs_]


def stacked(R, tier, i):
    stack(R, tier, i, False)


def common(R, tier, i):
    stack(R, tier, i, True)


def stack(R, tier, i, side):
    from regreg.smooth import mglm as M, glm as G
    klass = M.stacked_common_loglike if side else G.stacked_loglike
    kind = kinds()[i]
    name = kind[0]
    key = "%s:%s" % ("common" if side else "stacked", name)
    grid = GRID if tier == "quick" else (-3., -1.5, 0., .5, 2.)
    cols = [np.array(p) for p in itertools.product(grid, repeat=3)]
    off = np.resize([.5, -1., 2., 0.], 6)
    nw = 3 if side else 6
    W1, W2 = np.resize([1., 0., 2.5, 1.], nw), np.resize([.5, 3., 1.], nw)
    done = 0
    for pair in same_parameter(pairs(kind, tier)):
        for method in (False, True):
            for c_in, c_out, o, own, call in itertools.product((1., 2.), (1., .5), (None, off), (None, W1), (None, W2)):
                if method and c_out != 1.:
                    continue
                info = dict(loss=name, responses=pair, side_by_side=side, class_method=method, inner=c_in, coef=c_out, offset=o, weights=own, call_weights=call)
                R.context = info
                loss = None
                kw = dict(offset=None if o is None else (o.reshape((2, 3)).T.copy() if side else o.copy()), case_weights=None if own is None else own.copy())
                with R.guard(key + ":construct", info):
                    if method:
                        loss = by_method(klass, name, pair, coef=c_in, **kw)
                    else:
                        loss = klass(scaled(kind, pair, c_in), coef=c_out, **kw)
                if loss is None:
                    continue
                done += 1
                R.state()
                w = np.ones(nw) * (1 if own is None else own) * (1 if call is None else call)
                ws = [w, w] if side else [w[:3], w[3:]]
                cw = {} if call is None else dict(case_weights=call.copy())
                for m, x1 in enumerate(cols if tier == "quick" else cols[::3]):
                    x2 = cols[(5 * m + 2) % len(cols)]
                    x = np.hstack([x1, x2])
                    z = x - (0 if o is None else o)
                    parts = [kind[3](zz, r, ww) for zz, r, ww in zip((z[:3], z[3:]), pair, ws)]
                    f, g = c_in * c_out * (parts[0][0] + parts[1][0]), c_in * c_out * np.hstack([parts[0][1], parts[1][1]])
                    shaped = (lambda v: v.reshape((2, 3)).T.copy()) if side else (lambda v: v)
                    evaluate(R, key, loss, shaped(x), f, shaped(g), cw, lambda: dict(info, eta=x), shaped(np.ones(6)))
                if c_out == .5 or method:
                    call_histories(R, key, loss, shaped(np.resize([1., -.5, 2., 0.], 6)), shaped(np.resize([0., .5, -1.], 6)), info, (W1, W2))
                with R.guard(key + ":data", info):
                    ys = [np.array(r[0], float) for r in pair]
                    if name != "cox":
                        want = np.array(ys).T if side else np.hstack(ys)
                        R.check(close(loss.data, want), key + ":data", "data are not the stacked responses", info)
                    R.check(tuple(loss.shape) == ((3, 2) if side else (6,)), key + ":shape", "shape %r" % (loss.shape,), info)
        R.outcome(name)
    R.check(done > 8, key + ":reach", "no loss could be built", dict(loss=name))


# ---- multivariate regression

DESIGN = np.array([[1., 2.], [-1., .5], [0., 3.]])


def designs():
    import regreg.affine as ra
    A = DESIGN
    return [("dense", A, lambda: A.copy()), ("csr", A, lambda: sparse.csr_matrix(A)), ("fortran", A, lambda: np.asfortranarray(A)),
            ("int", np.round(A), lambda: np.round(A).astype(int)), ("transform", A, lambda: ra.astransform(A.copy()))]


def regression(R, tier, key, build, ref, q, rows=3):
    """build(X, **kw) -> mglm; ref(eta, w) -> value, gradient"""
    grid = (-1., 0., .5) if q == 1 or 2 * q > 4 else (-1., 0., .5)
    size = 2 * q
    coefs = [np.reshape(p, (2, q)) for p in itertools.product(grid, repeat=size)]
    if size > 4 and tier == "quick":
        coefs = coefs[::7]
    W = np.resize([1., 0., 2.], rows)
    off = np.reshape(np.resize([.5, -1., .25], size), (2, q))
    soff = np.reshape(np.resize([.5, -1., 2., 0.], rows * q), (rows, q))
    for dname, A, make in designs():
        A = A[:rows]
        for c, o, so, w in itertools.product((1., 2.5), (None, off), (None, soff), (None, W, np.resize([2, 1, 0], rows))):
            if tier == "quick" and c == 1. and (o is None) != (so is None):
                continue
            info = dict(loss=key, design=dname, coef=c, offset=o, saturated_offset=so, weights=w)
            R.context = info
            loss = None
            given = None if w is None else w.copy()
            with R.guard(key + ":construct", info):
                X = make() if rows == 3 else make()[:rows] if dname != "transform" else __import__("regreg.affine", fromlist=["x"]).astransform(A.copy())
                loss = build(X, coef=c, offset=None if o is None else o.copy(), saturated_offset=None if so is None else so.copy(), case_weights=given)
            if loss is None:
                continue
            R.state()
            ww = np.ones(rows) if w is None else w.astype(float)
            for B in coefs if dname == "dense" else coefs[::4]:
                z = A @ (B - (0 if o is None else o)) - (0 if so is None else so)
                f, g = ref(z, ww)
                evaluate(R, key, loss, B, c * f, c * A.T @ g, {}, lambda: dict(info, beta=B), coefs[-1])
            if c != 1.:
                call_histories(R, key, loss, coefs[1], coefs[-2], info)
            with R.guard(key + ":linear_predictor", info):
                R.check(close(loss.linear_predictor(coefs[2]), A @ coefs[2]), key + ":linear_predictor", "linear predictor is not X B", info)
                R.check(given is None or np.array_equal(given, w), key + ":mutates", "the caller's weights were modified", info)
                R.check(close(loss.objective(coefs[1]), loss.smooth_objective(coefs[1], "func")) and
                        close(loss.gradient(coefs[1]), loss.smooth_objective(coefs[1], "grad")), key + ":modes", "objective/gradient differ from smooth_objective", info)
        R.outcome(dname)
    X = make()
    try:
        build(X, case_weights=np.array([1., -1., 1.])[:rows], coef=1., offset=None, saturated_offset=None)
        R.fail(key + ":bad-weights", "negative weights were accepted", dict(loss=key))
    except ValueError:
        pass


def mglm(R, tier, i):
    from regreg.smooth import mglm as M
    kind = kinds()[i]
    for pair in pairs(kind, tier)[:2]:
        def direct(X, coef, saturated_offset, **kw):
            return M.mglm(X, M.stacked_common_loglike(scaled(kind, pair, 1.), coef=coef, offset=saturated_offset), **kw)

        def method(X, **kw):
            return M.mglm.stacked(X, scaled(kind, pair, 1.), **kw)

        def ref(z, w):
            ps = [kind[3](z[:, j], pair[j], w) for j in range(2)]
            return ps[0][0] + ps[1][0], np.column_stack([ps[0][1], ps[1][1]])
        regression(R, tier, "mglm:" + kind[0], direct, ref, 2)
        regression(R, tier, "mglm.stacked:" + kind[0], method, ref, 2)


def mglm_multinomial(R, tier, base):
    from regreg.smooth import mglm as M
    for c in counts("thorough"):
        rows = c.shape[0]
        q = c.shape[1] - base
        if q == 4:
            continue

        def build(X, **kw):
            return M.mglm.multinomial(X, c.copy(), baseline=base, **kw)

        def ref(z, w):
            f, g = multi_ref(c, z, base)
            return (w * f).sum(), w[:, None] * g
        regression(R, tier, "mglm:multinomial" + ("-baseline" if base else ""), build, ref, q, rows)
