"""Smooth functions built from others: affine composition, sums, quadratic losses, conjugates, Huberised hinge, minimisation."""
import itertools
import warnings
from copy import copy
import numpy as np
from scipy import sparse
from mc import losses as L, affine as F

PROPERTY = "C15"
LEVEL = "model_checking"
RULE = ("every smooth function (quadratic forms in all forms, saturated losses, Huberised hinge, zero) x scale x offset x own quadratic, "
        "every composition with a transform by every construction route, every weighted sum of up to three of them (nested sums included), "
        "at every point of the grid; value, gradient, evaluation modes, objective and dual against the closed form; minimisation of every "
        "strongly convex instance against the solution of its linear system, repeated on the same object; every sequence of evaluations (any mode, "
        "at two points and at an array changed in place) and changes (scale, offset, weights) of one function or composition, every evaluation checked")
ASSUMPTIONS = ["matrices of quadratic forms are symmetric", "solver results are compared within 1e-4 at tolerance 1e-14",
               "an own quadratic of a composed function may act on the image or on the argument (the documentation does not say)"]
BOUNDS = {"quick": "dimension 2 and 3, grids of 3 values, 12 base functions, about 60 transforms, sums of 2 and 3 of 10 functions, histories of length 3 of 8 forms",
          "thorough": "grids of 5 values, histories of length 4, all transforms of the elementary and unary families, all sums of 3 of 12 functions"}


def units(tier):
    out = [("base/%s" % b.name, ("base", i)) for i, b in enumerate(bases())]
    out += [("affine/%s" % b.name, ("affine", i)) for i, b in enumerate(bases())]
    out += [("sums/%d" % k, ("sums", k)) for k in range(len(pool()))]
    out += [("history/%s" % b.name, ("history", i)) for i, b in enumerate(bases())]
    out += [("conjugate", ("conjugate",)), ("cholesky", ("cholesky",)), ("hinge", ("hinge",)), ("solve", ("solve",)), ("routes", ("routes",))]
    return out


def weight(name, args):
    return 3 if args[0] in ("sums", "affine") else 1


def run(R, name, args, tier):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()[args[0]](R, tier, *args[1:])


def close(a, b, rtol=1e-7, atol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b) + 1e-13 * np.abs(b).max(initial=0)))


class Base(object):
    """make(**kw) builds the function on R^n (keywords coef, offset, quadratic, initial); f, g its value and gradient at coef 1, no offset"""

    def __init__(self, name, make, n, f, g, linear=None):
        self.name, self.make, self.n, self.f, self.g, self.linear = name, make, n, f, g, linear


QM = np.array([[2., -1., .5], [-1., 3., 0.], [.5, 0., 1.]])
QI = np.array([[4, 1, 0], [1, 2, 1], [0, 1, 3]])
D3 = np.array([1., .5, 3.])
T23 = np.array([[1., 2., -1.], [0., 1., 3.]])


def bases():
    from regreg.smooth.quadratic import quadratic_loss as Q
    from regreg.smooth import zero
    out = []

    def quad(name, make, M, linear=None):
        out.append(Base(name, make, 3, lambda x, M=M: x @ M @ x / 2., lambda x, M=M: M @ x, linear))

    quad("l2", lambda **k: Q((3,), **k), np.eye(3), (Q, {}))
    quad("l2-int-shape", lambda **k: Q(3, **k), np.eye(3))
    quad("dense", lambda **k: Q((3,), Q=QM.copy(), **k), QM, (Q, dict(Q=QM)))
    quad("integer", lambda **k: Q((3,), Q=QI.copy(), **k), QI)
    quad("diagonal", lambda **k: Q((3,), Q=D3.copy(), Qdiag=True, **k), np.diag(D3), (Q, dict(Q=D3, Qdiag=True)))
    for name, fam in ((f.name, f) for f in L.families() if f.name in ("gaussian", "logistic", "poisson", "huber")):
        r = fam.responses[0]
        args = dict(gaussian=dict(response=np.array(r[0])), logistic=dict(successes=np.array(r[0])), poisson=dict(counts=np.array(r[0])),
                    huber=dict(response=np.array(r[0]), smoothing_parameter=.5))[name]
        import regreg.smooth.glm as G
        klass = dict(gaussian=G.gaussian_loglike, logistic=G.logistic_loglike, poisson=G.poisson_loglike, huber=G.huber_loss)[name]
        out.append(Base(name, lambda fam=fam, r=r, **k: fam.saturated(r, **k), 3, lambda x, fam=fam, r=r: fam.f(x, r).sum(), lambda x, fam=fam, r=r: fam.g(x, r),
                        (klass, args)))
    out.append(Base("zero", lambda **k: zero((3,), **k), 3, lambda x: 0., lambda x: np.zeros(3), (zero, {})))
    return out


def statics():
    """static constructors of quadratic losses: no coef"""
    from regreg.smooth.quadratic import quadratic_loss as Q
    import regreg.affine as ra
    return [("fromarray", lambda **k: Q.fromarray(QM.copy(), **k), QM), ("diagonal", lambda **k: Q.diagonal(list(D3), **k), np.diag(D3)),
            ("squared_transform", lambda **k: Q.squared_transform(T23.copy(), **k), T23.T @ T23),
            ("squared_transform-affine", lambda **k: Q.squared_transform(ra.affine_transform(T23.copy(), np.array([1., -2.])), **k), T23.T @ T23),
            ("squared_transform-sparse", lambda **k: Q.squared_transform(sparse.csr_matrix(T23), **k), T23.T @ T23)]


def points(n, tier, ints=True):
    vals = (-1.5, 0., 1.) if tier == "quick" else (-2.5, -1., 0., .5, 3.)
    out = [np.array(p) for p in itertools.product(vals, repeat=n)]
    if ints:
        out += [np.array(p) for p in ((1, 0, -2), (0, 0, 0), (3, 1, 1))] if n == 3 else [np.resize([1, 0, -2], n)]
    return out


OFF = np.array([.5, -1., 2.])


def quads():
    from regreg.identity_quadratic import identity_quadratic as iq
    yield None, lambda x: 0., lambda x: 0 * x
    c, l = np.array([1., 0., -1.]), np.array([.5, 2., -1.])
    yield (lambda: iq(2., c.copy(), l.copy(), 3.)), (lambda x: ((x - c) ** 2).sum() + l @ x + 3.), (lambda x: 2 * (x - c) + l)
    yield (lambda: iq(0, 0, l.copy(), -1.)), (lambda x: l @ x - 1.), (lambda x: l + 0 * x)


def verify(R, key, fn, x, f, g, case, extra=None):
    """all evaluation modes at x against value f and gradient g; extra: value of the terms only the objective includes"""
    R.trans()
    with R.guard(key, case):
        x0 = x.copy()
        v = fn.smooth_objective(x, mode="func")
        d = fn.smooth_objective(x, mode="grad")
        keep = np.array(d)
        b = fn.smooth_objective(x, mode="both")
        fn.smooth_objective(x + 1, mode="both")
        R.check(close(v, f), key + ":value", lambda: "value %r, should be %r" % (v, f), case)
        R.check(close(d, g), key + ":gradient", lambda: "gradient %r, should be %r" % (d, g), case)
        R.check(close(b[0], f) and close(b[1], g), key + ":modes", "evaluation modes disagree", case)
        R.check(np.array_equal(x, x0), key + ":mutates", "argument modified", case)
        R.check(np.array_equal(d, keep), key + ":alias", "a gradient returned earlier was changed", case)
        if extra is not None:
            o = fn.objective(x)
            R.check(close(o, f + extra), key + ":objective", lambda: "objective %r, should be %r" % (o, f + extra), case)
        R.trace()


def constant(fn):
    """additive constant a loss keeps in its quadratic"""
    return 0 if fn.quadratic.constant_term is None else float(fn.quadratic.constant_term)


def base(R, tier, i):
    b = bases()[i]
    for coef, off, (mk, qf, qg), init in itertools.product((1, 1., 2.5, 0.), (None, OFF, OFF.astype(int), np.zeros(3)), quads(), (None, np.array([1., 2., 3.]))):
        info = dict(function=b.name, coef=coef, offset=off, quadratic=None if mk is None else repr(mk()), initial=init)
        key = "base:" + b.name
        R.context = info
        fn = plain = None
        with R.guard(key + ":construct", info):
            given = None if init is None else init.copy()
            fn = b.make(coef=coef, offset=None if off is None else off.copy(), quadratic=None if mk is None else mk(), initial=given)
            plain = b.make(coef=coef)
        if fn is None:
            continue
        R.state()
        with R.guard(key + ":initial", info):
            R.check(close(fn.coefs, np.zeros(3) if init is None else init), key + ":initial", lambda: "coefficients start at %r" % (fn.coefs,), info)
            if init is not None:
                fn.coefs[0] = 77.
                R.check(np.array_equal(given, init), key + ":initial", "the initial value given by the caller is shared", info)
        extra = constant(plain)
        for x in points(3, tier):
            z = x - (0 if off is None else off)
            verify(R, key, fn, x, coef * b.f(z), coef * b.g(z) + 0. * x, lambda: dict(info, x=x), coef * 0. + extra + qf(x))
        with R.guard(key + ":setters", info):
            # changing the scale and offset later is the same as giving them at construction
            fn.offset = -OFF
            fn.coef = 1.5
            x = np.array([.5, 1., -2.])
            R.check(close(fn.smooth_objective(x, mode="func"), 1.5 * b.f(x + OFF)) and close(fn.smooth_objective(x, mode="grad"), 1.5 * b.g(x + OFF)),
                    key + ":setters", "after changing coef and offset", info)
            fn.offset = None
            R.check(close(fn.smooth_objective(x, mode="func"), 1.5 * b.f(x)), key + ":setters", "after removing the offset", info)
        R.outcome(b.name)
    try:
        b.make(coef=-1.)
        R.fail("base:negative-coef", "a negative scale was accepted", dict(function=b.name))
    except ValueError:
        pass
    if b.name == "l2":
        from regreg.smooth.quadratic import quadratic_loss, signal_approximator
        for name, make, M in statics():
            for off, (mk, qf, qg) in itertools.product((None, OFF), quads()):
                info = dict(function=name, offset=off, quadratic=None if mk is None else repr(mk()))
                with R.guard("base:" + name, info):
                    fn = make(offset=None if off is None else off.copy(), quadratic=None if mk is None else mk())
                    R.state()
                    for x in points(3, tier):
                        z = x - (0 if off is None else off)
                        verify(R, "base:" + name, fn, x, z @ M @ z / 2., M @ z, lambda: dict(info, x=x), qf(x))
        for Y, coef in itertools.product((OFF, np.array([1, 0, 2]), np.zeros(3), np.arange(6.).reshape((3, 2))), (1, 2.5)):
            with R.guard("base:signal", dict(Y=Y)):
                fn = signal_approximator(Y.copy(), coef=coef)
                for p in points(3, tier):
                    x = p if Y.ndim == 1 else np.column_stack([p, p[::-1]])
                    verify(R, "base:signal", fn, x, coef * ((x - Y) ** 2).sum() / 2., coef * (x - Y), lambda: dict(Y=Y, x=x), 0.)


def transforms(tier):
    el = F.elementary()
    ts = [t for t in el if t.osh == (3,)]
    for t in el:
        if tier == "thorough" or t.key in ("dense33+b", "dense32+b", "csr", "diag+b", "row+b", "reshape 32->6", "csr+b"):
            ts += [u for u in F.unary(t) if u.osh == (3,)]
    by = dict((t.key, t) for t in el)
    for a, b in (("dense33+b", "dense32+b"), ("row+b", "row+b"), ("dense33", "csr+b"), ("diag+b", "dense33+b")):
        ts += [u for u in F.binary(by[a], by[b]) if u.osh == (3,)]
    return ts


def affine(R, tier, i):
    from regreg.smooth import affine_smooth
    b = bases()[i]
    off = OFF
    for t in transforms(tier):
        n = t.M.shape[1]
        for coef, o in ((1., None), (2.5, off)) if t.dense else ((1., off),):
            info = dict(function=b.name, transform=t.name, coef=coef, offset=o)
            key = "affine:%s" % b.name
            R.context = info
            fn = inner = None
            with R.guard(key + ":construct", info):
                inner = b.make(coef=coef, offset=None if o is None else o.copy())
                fn = affine_smooth(inner, t.make())
            if fn is None:
                continue
            R.state()
            R.check(tuple(np.ravel(fn.shape)) == t.ish, key + ":shape", lambda: "shape %r" % (fn.shape,), info)
            grid = points(n, tier, False) if n <= 3 else [np.resize(p, n) for p in points(3, tier, False)] + [np.eye(n)[k] for k in range(n)]
            for x in grid:
                z = t.M @ x + t.b - (0 if o is None else o)
                xs = x.reshape(t.ish)
                verify(R, key, fn, xs, coef * b.f(z), (coef * t.M.T @ b.g(z)).reshape(t.ish), lambda: dict(info, x=x), 0.)
            with R.guard(key + ":inner", info):
                z = np.array([1., -1., .5])
                w = z - (0 if o is None else o)
                R.check(close(inner.smooth_objective(z, mode="func"), coef * b.f(w)), key + ":inner", "the composed function was changed", info)
                fn.coef = 3.
                x = grid[-1]
                w = t.M @ x + t.b - (0 if o is None else o)
                R.check(close(fn.smooth_objective(x.reshape(t.ish), mode="func"), 3. * b.f(w)) and fn.coef == 3., key + ":coef", "setting the scale", info)
        R.outcome(t.key)


def routes(R, tier):
    """class methods linear, affine, shift; squared_error; matrices and transforms"""
    from regreg.smooth.quadratic import squared_error
    import regreg.affine as ra
    A = np.array([[1., 2.], [-1., .5], [0., 3.]])
    v = np.array([1., -2., .5])
    forms = [("dense", lambda: A.copy(), A, 0., {}), ("csr", lambda: sparse.csr_matrix(A), A, 0., {}), ("transform", lambda: ra.linear_transform(A.copy()), A, 0., {}),
             ("affine", lambda: ra.affine_transform(A.copy(), v.copy()), A, v, {}), ("diag", lambda: v.copy(), np.diag(v), 0., dict(diag=True)),
             ("integer", lambda: np.round(A).astype(int), np.round(A), 0., {})]
    quad = list(quads())
    for b in bases():
        if b.linear is None:
            continue
        klass, kws = b.linear
        for name, make, M, mb, kw in forms:
            for coef, o in itertools.product((1., 2.5), (None, OFF)):
                for route in ("linear", "affine"):
                    if route == "affine" and o is None:
                        continue
                    if route == "affine" and name == "affine" and False:
                        continue
                    info = dict(function=b.name, route=route, form=name, coef=coef, offset=o)
                    key = "routes:%s" % route
                    R.context = info
                    fn = None
                    given = None if o is None else o.copy()
                    with R.guard(key, info):
                        if route == "linear":
                            fn = klass.linear(make(), coef=coef, offset=given, **dict(kws, **kw))
                        else:
                            fn = klass.affine(make(), given, coef=coef, **dict(kws, **kw))
                    if fn is None:
                        continue
                    R.state()
                    s = 0 if o is None else (-o if route == "linear" else o)
                    for x in points(M.shape[1], tier, False):
                        z = M @ x + mb + s
                        verify(R, key, fn, x, coef * b.f(z), coef * M.T @ b.g(z), lambda: dict(info, x=x), 0.)
                    R.check(o is None or np.array_equal(given, o), key + ":mutates", "offset modified", info)
        for coef in (1., 2.5):
            info = dict(function=b.name, route="shift", coef=coef)
            with R.guard("routes:shift", info):
                fn = klass.shift(OFF.copy(), coef=coef, **kws)
                extra = constant(klass.shift(OFF.copy(), coef=coef, **kws))
                for x in points(3, tier):
                    verify(R, "routes:shift", fn, x, coef * b.f(x - OFF), coef * b.g(x - OFF), lambda: dict(info, x=x), extra)
        for bad in (dict(nonsense=1), dict(shape=(3,)), dict(initial=v)):
            for route in (klass.linear, lambda a, **k: klass.affine(a, OFF.copy(), **k), lambda a, **k: klass.shift(OFF.copy(), **k)):
                try:
                    route(A.copy(), **dict(kws, **bad))
                    R.fail("routes:keywords", "an unknown keyword was accepted", dict(function=b.name, keyword=bad))
                except ValueError:
                    pass
        # an own quadratic has to appear somewhere in the objective
        if b.name == "l2":
            mk, qf, qg = quad[1]
            for x in points(3, tier, False):
                info = dict(function=b.name, x=x)
                with R.guard("routes:quadratic", info):
                    fn = klass.linear(QM.copy(), quadratic=mk(), **kws)
                    f = b.f(QM @ x)
                    o = fn.objective(x)
                    R.check(close(o, f + qf(x)) or close(o, f + qf(QM @ x)), "routes:quadratic",
                            lambda: "objective %r contains the quadratic neither in the argument (%r) nor in the image (%r)" % (o, f + qf(x), f + qf(QM @ x)), info)
    for name, make, M, mb, kw in forms:
        if kw:
            continue
        for coef in (1, 2.5):
            info = dict(route="squared_error", form=name, coef=coef)
            with R.guard("routes:squared_error", info):
                Y = OFF.copy()
                fn = squared_error(make(), Y, coef=coef)
                R.state()
                for x in points(2, tier, False):
                    z = M @ x + mb - OFF
                    verify(R, "routes:squared_error", fn, x, coef * z @ z / 2., coef * M.T @ z, lambda: dict(info, x=x), 0.)
                R.check(np.array_equal(Y, OFF), "routes:mutates", "response modified", info)
    R.outcome("routes")


def pool():
    """functions of R^3 to be summed: (name, make, smooth value, gradient, additional objective)"""
    from regreg.smooth import affine_smooth
    import regreg.affine as ra
    by = dict((b.name, b) for b in bases())
    out = []

    def add(name, b, coef=1., off=None, q=0):
        mk, qf, qg = list(quads())[q]
        make = lambda: by[b].make(coef=coef, offset=None if off is None else off.copy(), quadratic=None if mk is None else mk())
        z = lambda x: x - (0 if off is None else off)
        out.append((name, make, lambda x: coef * by[b].f(z(x)), lambda x: coef * by[b].g(z(x)), lambda x: qf(x) + constant(by[b].make(coef=coef))))

    add("l2", "l2")
    add("dense", "dense", 2.5, OFF)
    add("dense+q", "dense", 1., None, 1)
    add("l2+q", "l2", 2., OFF, 2)
    add("logistic", "logistic", 1., None)
    add("huber", "huber", .5, OFF)
    add("zero+q", "zero", 1., None, 1)
    M = np.array([[1., 0., 2.], [0., -1., 1.], [3., 1., 0.]])
    add_affine = lambda name, b, t, tb: out.append((name, lambda: affine_smooth(by[b].make(), ra.affine_transform(t.copy(), None if tb is None else tb.copy())),
                                                    lambda x: by[b].f(t @ x + (0 if tb is None else tb)), lambda x: t.T @ by[b].g(t @ x + (0 if tb is None else tb)), lambda x: 0.))
    add_affine("affine-l2", "l2", M, OFF)
    add_affine("affine-poisson", "poisson", M, None)
    X = M + 1
    from regreg.smooth.glm import glm
    fam = [f for f in L.families() if f.name == "gaussian"][0]
    out.append(("glm", lambda: fam.glm(X.copy(), fam.responses[0]), lambda x: fam.f(X @ x, fam.responses[0]).sum(), lambda x: X.T @ fam.g(X @ x, fam.responses[0]), lambda x: 0.))
    return out


def sums(R, tier, k):
    from regreg.smooth import sum as smooth_sum
    P = pool()
    rest = range(len(P))
    combos = [(k,)] + [(k, j) for j in rest] + [(k, j, l) for j in rest for l in rest if tier == "thorough" or (j + 2 * l + k) % 5 == 0]
    for combo in combos:
        m = len(combo)
        for w in (None, [1., 2., .5][:m], np.array([3, 0, 1])[:m], np.array([[.5, 1., 2.]])[:, :m]):
            for off in ((None, OFF) if m < 3 else (None,)):
                parts = [P[j] for j in combo]
                info = dict(terms=[p[0] for p in parts], weights=w, offset=off)
                R.context = info
                key = "sum"
                fn = None
                with R.guard(key + ":construct", info):
                    atoms = [p[1]() for p in parts]
                    fn = smooth_sum(atoms, weights=w)
                    if off is not None:
                        fn.offset = off.copy()
                if fn is None:
                    continue
                R.state()
                ww = np.ones(m) if w is None else np.ravel(w)
                for x in points(3, tier):
                    z = x - (0 if off is None else off)
                    f = sum(a * p[2](z) for a, p in zip(ww, parts))
                    g = sum(a * p[3](z) for a, p in zip(ww, parts)) + 0. * x
                    e = sum(a * p[4](x) for a, p in zip(ww, parts)) if off is None else None
                    verify(R, key, fn, x, f, g, lambda: dict(info, x=x), e)
                with R.guard(key + ":independent", info):
                    before = [np.array(a.coefs) for a in atoms]
                    fn.coefs[:] = 5.
                    R.check(all(np.array_equal(a.coefs, c) for a, c in zip(atoms, before)), key + ":independent",
                            "changing the coefficients of the sum changes those of a term", info)
                    for a, p in zip(atoms, parts):
                        x = np.array([1., -.5, 2.])
                        R.check(close(a.smooth_objective(x, mode="func"), p[2](x)) and close(a.objective(x), p[2](x) + p[4](x)), key + ":terms", "a term was changed", info)
                if m == 2:
                    with R.guard(key + ":nested", info):
                        outer = smooth_sum([fn, P[0][1]()], weights=[2., 3.])
                        x = np.array([1., -.5, 2.])
                        z = x - (0 if off is None else off)
                        f = 2 * sum(a * p[2](z) for a, p in zip(ww, parts)) + 3 * P[0][2](x)
                        g = 2 * sum(a * p[3](z) for a, p in zip(ww, parts)) + 3 * P[0][3](x)
                        e = 2 * sum(a * p[4](x) for a, p in zip(ww, parts)) if off is None else None
                        verify(R, key + ":nested", outer, x, f, g, info, e)
        R.outcome("%d terms" % m)
    for w in ([-1., 1.], [1.], [1., 2., 3.]):
        try:
            smooth_sum([P[k][1](), P[0][1]()], weights=w)
            R.fail("sum:bad-weights", "negative or wrong number of weights accepted", dict(weights=w))
        except ValueError:
            pass


class Ref(object):
    """one function b under an affine map, and its state"""

    def __init__(self, b, M, c, coef=1., off=None):
        self.b, self.M, self.c, self.coef, self.off = b, M, c, coef, off

    def z(self, x):
        return self.M @ x + self.c - (0 if self.off is None else self.off)

    def f(self, x):
        return self.coef * self.b.f(self.z(x))

    def g(self, x):
        return self.coef * (self.M.T @ self.b.g(self.z(x)))


class RefSum(object):

    def __init__(self, parts, w):
        self.parts, self.w = parts, list(w)

    def f(self, x):
        return sum(w * p.f(x) for w, p in zip(self.w, self.parts))

    def g(self, x):
        return sum(w * p.g(x) for w, p in zip(self.w, self.parts))


def forms(b):
    """(name, make() -> (object, reference, setters of the scale, setters of the offset, object whose weights may change))"""
    from regreg.smooth import affine_smooth, sum as smooth_sum
    import regreg.affine as ra
    M = np.array([[1., 0., 2.], [0., -1., 1.], [3., 1., 0.]]) / 2
    I = np.eye(3)

    def coef(o, r):
        def set_coef(v):
            o.coef = r.coef = v
        return set_coef

    def off(o, r):
        def set_off(v):
            o.offset, r.off = None if v is None else v.copy(), v
        return set_off

    def plain(**k):
        o, r = b.make(**k), Ref(b, I, np.zeros(3), k.get("coef", 1.), k.get("offset"))
        return o, r, [coef(o, r)], [off(o, r)], None

    def aff(T, m, c, **k):
        i = b.make()
        o, r = affine_smooth(i, T, **k), Ref(b, m, c)
        return o, r, [coef(o, r)], [off(i, r)], None

    def total(mk1, mk2):
        o1, r1, c1, f1, _ = mk1()
        o2, r2, c2, f2, _ = mk2()
        return smooth_sum([o1, o2], weights=[2., 1.]), RefSum([r1, r2], [2., 1.]), c1[:1], f2[:1], True
    dense = lambda **k: aff(ra.affine_transform(M.copy(), OFF.copy()), M, OFF, **k)
    yield "plain", plain
    yield "scaled", lambda: plain(coef=2.5, offset=OFF)
    yield "affine", dense
    yield "affine-nostore", lambda: dense(store_grad=False)
    yield "matrix", lambda: aff(M.copy(), M, np.zeros(3))
    yield "identity", lambda: aff(ra.identity((3,)), I, np.zeros(3))
    yield "sum", lambda: total(dense, lambda: plain(coef=.5))
    yield "sum-same-map", lambda: total(lambda: aff(ra.identity((3,)), I, np.zeros(3)), plain)


def history(R, tier, i):
    """all sequences of evaluations and changes; the reference follows the changes"""
    b = bases()[i]
    A, B = np.array([1., -.5, 0.]), np.array([0., 1., 1.])
    evals = [(m, p) for m in ("both", "grad", "func") for p in "ABX"]
    depth = 3 if tier == "quick" else 4
    for name, make in forms(b):
        with R.guard("history:%s:construct" % name, dict(function=b.name, form=name)):
            weights = make()[4]
        ops = evals + [("coef", 3.), ("coef", 1.), ("offset", B / 4)] + ([("weights", (1., 4.))] if weights else [])
        key = "history:%s" % name
        for seq in itertools.product(range(len(ops)), repeat=depth):
            if seq[-1] >= len(evals) or (tier != "quick" and seq[0] >= len(evals)):
                continue
            info = dict(function=b.name, form=name, ops=[ops[s] for s in seq])
            R.context = info
            R.state()
            with R.guard(key, info):
                o, r, sc, so, _ = make()
                X = A.copy()
                kept = []
                for s in seq:
                    op, v = ops[s]
                    R.trans()
                    if op == "coef":
                        sc[0](v)
                    elif op == "offset":
                        so[0](v)
                    elif op == "weights":
                        o.weights, r.w = np.array(v), v
                    else:
                        if v == "X":
                            X += B / 2          # the same array with other entries
                            x = X
                        else:
                            x = dict(A=A, B=B)[v]
                        x0 = x.copy()
                        got = o.smooth_objective(x, mode=op)
                        f, g = got if op == "both" else (got, None) if op == "func" else (None, got)
                        if not np.array_equal(x, x0):
                            R.fail(key + ":mutates", "argument modified", info)
                            break
                        if f is not None and not close(f, r.f(x)):
                            R.fail(key + ":value", "value %r, should be %r" % (f, r.f(x)), info)
                            break
                        if g is not None:
                            if not close(g, r.g(x)):
                                R.fail(key + ":gradient", "gradient %r, should be %r" % (g, r.g(x)), info)
                                break
                            kept.append((g, np.array(g), v))
                for g, k, v in kept:
                    if v != "X" and not np.array_equal(g, k):
                        R.fail(key + ":alias", "a gradient returned earlier was changed", info)
                        break
                R.trace()
        R.outcome("history:" + name)


def conjugate(R, tier):
    """f*(u) = sup <u,x> - f(x) for strongly convex quadratics with all their options"""
    from regreg.smooth.quadratic import quadratic_loss as Q
    forms = [("identity", None, False, np.eye(3)), ("diagonal", D3, True, np.diag(D3)), ("dense", QM, False, QM)]
    us = points(3, tier)
    for (name, q, diag, M), coef, off, (mk, qf, qg) in itertools.product(forms, (1., 2.5), (None, OFF), quads()):
        info = dict(function=name, coef=coef, offset=off, quadratic=None if mk is None else repr(mk()))
        R.context = info
        R.state()
        fn = Q((3,), Q=None if q is None else q.copy(), Qdiag=diag, coef=coef, offset=None if off is None else off.copy(), quadratic=None if mk is None else mk())
        o = np.zeros(3) if off is None else off
        H = coef * M + (2. * np.eye(3) if mk is not None and mk().coef else 0)
        g0 = qg(np.zeros(3)) - coef * M @ o                      # gradient of f at 0
        f0 = qf(np.zeros(3)) + coef * o @ M @ o / 2.
        conj = None
        with R.guard("conjugate:" + name, info):
            conj = fn.get_conjugate(factor=True) if name == "dense" else fn.conjugate
        if conj is None:
            continue
        for u in us:
            x = np.linalg.solve(H, u - g0)
            want = u @ x - (f0 + g0 @ x + x @ H @ x / 2.)
            case = lambda: dict(info, u=u)
            R.trans()
            with R.guard("conjugate:" + name, case):
                got = conj.objective(u)
                R.check(close(got, want), "conjugate:%s:value" % name, lambda: "conjugate %r, should be %r" % (got, want), case)
                d = conj.smooth_objective(u, mode="grad")
                R.check(close(d, x), "conjugate:%s:gradient" % name, lambda: "gradient %r, should be the maximiser %r" % (d, x), case)
                R.trace()
        with R.guard("conjugate:" + name + ":original", info):
            x = np.array([1., -1., .5])
            R.check(close(fn.objective(x), coef * (x - o) @ M @ (x - o) / 2. + qf(x)), "conjugate:%s:original" % name, "taking the conjugate changed the function", info)
        R.outcome(name)
    with R.guard("conjugate:no-factor", {}):
        try:
            Q((3,), Q=QM.copy()).get_conjugate()
            R.fail("conjugate:no-factor", "a dense conjugate without factorisation was returned", {})
        except ValueError:
            pass


def cholesky(R, tier):
    from regreg.smooth.quadratic import cholesky as C
    import regreg.affine as ra
    for M in (QM, QI, np.array([[2.]]), np.diag([1., 2., 3.]) + .5 * (np.eye(3, k=1) + np.eye(3, k=-1)), np.eye(4) * 3 + np.eye(4, k=1) + np.eye(4, k=-1)):
        n = M.shape[0]
        R.state()
        for banded in (False, True):
            if banded and (n < 3 or np.any(np.triu(M, 2))):
                continue
            info = dict(matrix=M, banded=banded)
            with R.guard("cholesky", info):
                # upper band storage of scipy.linalg.cholesky_banded
                ab = np.array([np.r_[0, np.diag(M, 1)], np.diag(M)]) if banded else M.copy()
                t = C(ab, banded=banded)
                for x in points(n, "quick", False) if n < 4 else np.eye(4):
                    R.trans()
                    want = np.linalg.solve(M, x)
                    for name in ("linear_map", "affine_map", "adjoint_map"):
                        R.check(close(getattr(t, name)(x.copy()), want), "cholesky:" + name, "not the inverse", lambda: dict(info, x=x))
                    R.trace()
                R.check(int(np.ravel(t.input_shape)[0]) == n, "cholesky:shape", lambda: "input shape %r" % (t.input_shape,), info)
        R.outcome("banded" if banded else "dense")


def hinge(R, tier):
    from regreg.smooth.losses import huberized_svm
    A = np.array([[1., 2.], [-1., .5], [0., 3.], [2., -2.]])
    for labels in (np.array([0, 1, 1, 0]), np.array([-1., 1., -1., 1.]), np.array([True, False, True, True]), np.array([3, 3, 7, 7])):
        y = np.where(labels == labels.max(), 1., -1.)
        for eps, coef, off, xt in itertools.product((.5, 2., 1), (1., 2.5), (None, np.array([.5, -1.])), (float, int)):
            X = A.astype(xt)
            info = dict(labels=labels, smoothing=eps, coef=coef, offset=off, dtype=xt.__name__)
            R.context = info
            fn = None
            with R.guard("hinge:construct", info):
                fn = huberized_svm(X.copy(), labels.copy(), eps, coef=coef, offset=None if off is None else off.copy())
            if fn is None:
                continue
            R.state()
            for x in points(2, "thorough", False):
                z = y * (X @ (x - (0 if off is None else off)))
                f = coef * np.where(z >= 1, 0, np.where(z <= 1 - eps, 1 - z - eps / 2., (1 - z) ** 2 / (2. * eps))).sum()
                g = coef * X.T @ (-y * np.clip((1 - z) / eps, 0, 1))
                verify(R, "hinge", fn, x, f, g, lambda: dict(info, x=x), 0.)
    try:
        huberized_svm(A, np.array([0, 1, 2, 1]), 1.)
        R.fail("hinge:labels", "three labels accepted", {})
    except ValueError:
        pass
    R.outcome("hinge")


def solve(R, tier):
    """minimisation of strongly convex quadratics with every combination of options, repeatedly on the same object"""
    from regreg.identity_quadratic import identity_quadratic as iq
    from regreg.smooth.quadratic import quadratic_loss as Q
    from regreg.smooth import affine_smooth
    from regreg.smooth import sum as ssum
    from regreg.smooth.glm import glm
    X3 = np.array([[1., .5, 0.], [0., 1., -.5], [.5, 0., 1.]])
    l = np.array([1., -2., .5])
    c = np.array([0., 1., 1.])
    calls = [(None, np.zeros((3, 3)), np.zeros(3), 0.), (lambda: iq(0, 0, l.copy(), 2.), np.zeros((3, 3)), l, 2.), (lambda: iq(3., c.copy(), 0, 0), 3 * np.eye(3), -3 * c, 3. * c @ c / 2)]
    for (name, q, diag, M), coef, off, (mk, qf, qg) in itertools.product([("identity", None, False, np.eye(3)), ("diagonal", D3, True, np.diag(D3)), ("dense", QM, False, QM)]
                                                                         + [(k, None, False, X3.T @ X3) for k in ("glm", "affine", "sum")], (1., 2.5), (None, OFF), quads()):
        info = dict(function=name, coef=coef, offset=off, quadratic=None if mk is None else repr(mk()))
        o = np.zeros(3) if off is None else off
        if name == "glm":
            fn = glm.gaussian(X3.copy(), X3 @ o, coef=coef, quadratic=None if mk is None else mk())
        elif name == "affine":
            fn = affine_smooth(Q((3,), coef=coef, offset=X3 @ o), X3.copy())
            fn.quadratic = fn.quadratic + (iq(0, 0, 0, 0) if mk is None else mk())
        elif name == "sum":
            fn = ssum([glm.gaussian(X3.copy(), X3 @ o), Q((3,), Q=X3.T @ X3, offset=o.copy())], [coef / 4., 3. * coef / 4.])
            fn.quadratic = fn.quadratic + (iq(0, 0, 0, 0) if mk is None else mk())
        else:
            fn = Q((3,), Q=None if q is None else q.copy(), Qdiag=diag, coef=coef, offset=None if off is None else off.copy(), quadratic=None if mk is None else mk())
        H = coef * M + (2. * np.eye(3) if mk is not None and mk().coef else 0)
        g0 = qg(np.zeros(3)) - coef * M @ o
        f0 = qf(np.zeros(3)) + coef * o @ M @ o / 2.
        R.state()
        if name == "affine":
            with R.guard("solve:dual", info):
                tr, conj = fn.dual
                for u in (np.zeros(3), np.array([1., -2., .5])):
                    v, g = conj.smooth_objective(u.copy(), "both")
                    v += conj.nonsmooth_objective(u.copy()) if conj.quadratic is not None else 0.
                    R.trans()
                    gq = 0. if conj.quadratic is None else conj.quadratic.objective(u, "grad")
                    R.check(close(tr.affine_map(u), X3 @ u) and close(v, u @ u / (2. * coef) + u @ X3 @ o) and close(g + gq, u / coef + X3 @ o), "solve:dual",
                            lambda: "conjugate %r with gradient %r at %r" % (v, g + gq, u), info)
        for seq in itertools.product(range(3), repeat=2 if tier == "quick" else 3):
            kept = []
            for s in seq:
                mkq, HH, gg, kk = calls[s]
                case = lambda: dict(info, calls=seq)
                R.trans()
                with R.guard("solve", case):
                    oldq = fn.quadratic
                    val, x = fn.solve(quadratic=None if mkq is None else mkq(), return_optimum=True, tol=1e-14)
                    want = np.linalg.solve(H + HH, -(g0 + gg))
                    fw = f0 + kk + (g0 + gg) @ want + want @ (H + HH) @ want / 2.
                    R.check(close(x, want, 1e-4, 1e-4), "solve:argmin", lambda: "minimiser %r, should be %r" % (x, want), case)
                    R.check(close(val, fw, 1e-6, 1e-6), "solve:value", lambda: "optimal value %r, should be %r" % (val, fw), case)
                    R.check(fn.quadratic is oldq or repr(fn.quadratic) == repr(oldq), "solve:quadratic", "own quadratic not restored", case)
                    kept.append((x, np.array(x)))
            R.check(all(np.array_equal(a, b) for a, b in kept), "solve:alias", "a solution returned earlier was changed by a later solve", case)
            R.trace()
        # a solve that fails leaves the function as it was
        with R.guard("solve:failed", info):
            before = repr(fn.quadratic)
            keep = np.array(fn.coefs)
            fn.coefs[:] = np.nan
            try:
                fn.solve(quadratic=calls[2][0](), tol=1e-14)
            except ValueError:
                pass
            fn.coefs[:] = keep
            R.check(repr(fn.quadratic) == before, "solve:failed", lambda: "quadratic %s after a failed solve, was %s" % (fn.quadratic, before), info)
        # proximal: minimiser of own quadratic plus the given one
        for s in (1, 2):
            mkq, HH, gg, kk = calls[s]
            tot = HH + (2. * np.eye(3) if mk is not None and mk().coef else 0)
            if not tot.any():
                continue
            with R.guard("solve:proximal", info):
                x = fn.proximal(mkq())
                want = np.linalg.solve(tot, -(gg + qg(np.zeros(3))))
                R.check(close(x, want), "solve:proximal", lambda: "proximal %r, should be %r" % (x, want), info)
        with R.guard("solve:lipschitz", info):
            own = 2. if mk is not None and mk().coef else 0.
            R.check(close(fn.lipschitz, own), "solve:lipschitz", "default Lipschitz constant is that of the quadratic", info)
            fn.lipschitz = 4.
            R.check(close(fn.lipschitz, 4. + own), "solve:lipschitz", "Lipschitz constant after setting it", info)
            try:
                fn.lipschitz = -1.
                R.fail("solve:lipschitz", "negative Lipschitz constant accepted", info)
            except ValueError:
                pass
        R.outcome(name)
