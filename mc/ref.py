"""Reference semantics of the nonsmooth terms, written from their definitions with plain numpy.

Every atom is g = sigma_K (support function of K, possibly infinite) with gauge gamma_K.  The pair
(g, gamma) decides everything the checks ask:
    Lagrange form  f = lam * g
    bound form     f = indicator of {g <= b}
    conj(lam * g)             = indicator of {gamma <= lam}
    conj(indicator {g <= b})  = b * gamma
"""
import numpy as np

TOL = 1e-7
inf = np.inf


def _abs(x):
    return np.fabs(np.asarray(x, float)).ravel()


class Pair(object):
    """g and gamma; neg=True swaps nothing, it is just documentation."""

    def __init__(self, g, gauge, g_le=None, gauge_le=None):
        self.g, self.gauge = g, gauge
        # membership tests {g <= t}, {gamma <= t}; cheaper than the value for some norms
        self.g_le = g_le or (lambda x, t, tol: g(x) <= t + tol)
        self.gauge_le = gauge_le or (lambda v, t, tol: gauge(v) <= t + tol)

    @property
    def polar(self):
        return Pair(self.gauge, self.g, self.gauge_le, self.g_le)


def scale(*xs):
    return max([1.0] + [float(np.max(np.abs(x))) if np.size(x) else 0. for x in xs])


# ---- basic pairs --------------------------------------------------------------------------------
l1_sup = Pair(lambda x: _abs(x).sum(), lambda v: _abs(v).max())
sup_l1 = l1_sup.polar


def _l2(x):
    return float(np.sqrt((_abs(x) ** 2).sum()))


l2_l2 = Pair(_l2, _l2)


def _nonneg(v):
    v = np.asarray(v, float).ravel()
    return v.min() >= -TOL * scale(v)


def _pos(x):
    return np.maximum(np.asarray(x, float).ravel(), 0)


def _max_if_nonneg(v):
    return _pos(v).max() if _nonneg(v) else inf


def _sum_if_nonneg(v):
    return _pos(v).sum() if _nonneg(v) else inf


pospart = Pair(lambda x: _pos(x).sum(), _max_if_nonneg)
conmax = pospart.polar
conpos = Pair(_sum_if_nonneg, lambda v: _pos(v).max())
maxpos = conpos.polar


def weighted(w):
    """g = sum w|x| ; w may be 0 (gauge inf off zero) or inf (g inf off zero)."""
    w = np.asarray(w, float)

    def wsum(x, w=w):
        x = _abs(x)
        t = 0.
        for a, b in zip(x, w.ravel()):
            if np.isinf(b):
                if a > TOL:
                    return inf
            else:
                t += a * b
        return t

    def gauge(v):
        v = _abs(v)
        t = 0.
        for a, b in zip(v, w.ravel()):
            if b == 0:
                if a > TOL:
                    return inf
            elif not np.isinf(b):
                t = max(t, a / b)
        return t
    return Pair(wsum, gauge)


def weighted_sup(w):
    """g = max w|x| with w possibly 0 or inf; gauge = sum |v| / w."""
    w = np.asarray(w, float)
    iw = np.array([inf if a == 0 else (0. if np.isinf(a) else 1. / a) for a in w.ravel()])

    def g(x):
        x = _abs(x)
        t = 0.
        for a, b in zip(x, w.ravel()):
            if np.isinf(b):
                if a > TOL:
                    return inf
            else:
                t = max(t, a * b)
        return t
    return Pair(g, weighted(iw).g)


def group(groups, weights):
    groups = np.asarray(groups)
    labels = sorted(set(groups.tolist()))

    def parts(x):
        x = np.asarray(x, float)
        return [(_l2(x[groups == l]), weights[l]) for l in labels]

    def g(x):
        return sum(w * n for n, w in parts(x))

    def gauge(v):
        t = 0.
        for n, w in parts(v):
            if w == 0:
                if n > TOL:
                    return inf
            else:
                t = max(t, n / w)
        return t
    return Pair(g, gauge)


def slope_pair(w):
    w = np.asarray(w, float)
    cw = np.cumsum(w)

    def g(x):
        return float((np.sort(_abs(x))[::-1] * w).sum())

    def gauge(v):
        return float((np.cumsum(np.sort(_abs(v))[::-1]) / cw).max())
    return Pair(g, gauge)


def _sgl_gauge(v, a, w):
    """min t : || (|v| - t a)_+ || <= t w"""
    v = np.abs(v)
    f = lambda t: _l2(np.maximum(v - t * a, 0)) - t * w
    if v.max() <= 1e-14:
        return 0.
    hi = 1.
    n = 0
    while f(hi) > 0:
        hi *= 2
        n += 1
        if n > 60:
            return inf
    lo = 0.
    for _ in range(64):
        mid = 0.5 * (lo + hi)
        if f(mid) > 0:
            lo = mid
        else:
            hi = mid
    return hi


def sparse_group(groups, a, weights):
    groups = np.asarray(groups)
    a = np.asarray(a, float) * np.ones(groups.shape)
    labels = sorted(set(groups.tolist()))

    def g(x):
        x = np.asarray(x, float)
        return sum(weights[l] * _l2(x[groups == l]) for l in labels) + float((np.abs(x) * a).sum())

    def gauge(v):
        v = np.asarray(v, float)
        return max(_sgl_gauge(v[groups == l], a[groups == l], weights[l]) for l in labels)

    def gauge_le(v, t, tol):
        v = np.abs(np.asarray(v, float))
        return all(_l2(np.maximum(v[groups == l] - t * a[groups == l], 0)) <= t * weights[l] + tol for l in labels)
    return Pair(g, gauge, gauge_le=gauge_le)


# ---- block (matrix) pairs -----------------------------------------------------------------------

def rows(x, shape):
    return np.asarray(x, float).reshape(shape)


def block(inner, shape):
    """sum over rows of inner.g ; gauge = max over rows of inner.gauge"""
    return Pair(lambda x: float(sum(inner.g(r) for r in rows(x, shape))),
                lambda v: float(max(inner.gauge(r) for r in rows(v, shape))))


def sparse_block(shape, a, w):
    def g(x):
        return sum(w * _l2(r) + a * _abs(r).sum() for r in rows(x, shape))

    def gauge(v):
        return max(_sgl_gauge(r, a * np.ones(r.shape), w) for r in rows(v, shape))

    def gauge_le(v, t, tol):
        return all(_l2(np.maximum(np.abs(r) - t * a, 0)) <= t * w + tol for r in rows(v, shape))
    return Pair(g, gauge, gauge_le=gauge_le)


def nuclear(shape):
    sv = lambda x: np.linalg.svd(rows(x, shape), compute_uv=False)
    return Pair(lambda x: float(sv(x).sum()), lambda v: float(sv(v).max()))


# ---- mixed lasso --------------------------------------------------------------------------------
UNPENALIZED, L1_PENALTY, POSITIVE_PART, NONNEGATIVE = -1, -2, -3, -4


def mixed(structure, weights):
    s = np.asarray(structure)
    labels = sorted(set(s.tolist()) - {-1, -2, -3, -4})

    def g(x):
        x = np.asarray(x, float)
        if np.any(x[(s == NONNEGATIVE) | (s == POSITIVE_PART)] < -TOL * scale(x)):
            return inf
        t = np.abs(x[s == L1_PENALTY]).sum() + np.maximum(x[s == POSITIVE_PART], 0).sum()
        return float(t + sum(weights[l] * _l2(x[s == l]) for l in labels))

    def gauge(v):
        v = np.asarray(v, float)
        e = TOL * scale(v)
        if np.any(np.abs(v[s == UNPENALIZED]) > e) or np.any(v[s == NONNEGATIVE] > e):
            return inf
        t = 0.
        if (s == L1_PENALTY).any():
            t = max(t, np.abs(v[s == L1_PENALTY]).max())
        if (s == POSITIVE_PART).any():
            t = max(t, np.maximum(v[s == POSITIVE_PART], 0).max())
        for l in labels:
            n = _l2(v[s == l])
            if weights[l] == 0:
                if n > e:
                    return inf
            else:
                t = max(t, n / weights[l])
        return t
    return Pair(g, gauge)


# ---- simplex ------------------------------------------------------------------------------------

def simplex_dist(x):
    x = np.asarray(x, float).ravel()
    return max(abs(x.sum() - 1), float(np.maximum(-x, 0).max()))


# ---- cones: distance-like residual of membership (0 inside) and of the polar ---------------------

class Cone(object):
    def __init__(self, resid, polar_resid):
        self.resid, self.polar_resid = resid, polar_resid

    @property
    def polar(self):
        return Cone(self.polar_resid, self.resid)


def _r(x):
    return float(np.maximum(np.asarray(x, float), 0).max()) if np.size(x) else 0.


nonnegative = Cone(lambda x: _r(-np.asarray(x)), lambda v: _r(v))
nonpositive = nonnegative.polar
whole = Cone(lambda x: 0., lambda v: float(_abs(v).max()))
origin = whole.polar


def epigraph(pair, shape=None):
    """{(x,t): g(x) <= t}; polar {(v,s): gamma(v) <= -s}"""
    def split(z):
        z = np.asarray(z, float)
        x = z[:-1]
        return (x if shape is None else x.reshape(shape)), z[-1]

    def resid(z):
        x, t = split(z)
        return max(pair.g(x) - t, 0)

    def presid(z):
        v, s = split(z)
        return max(pair.gauge(v) + s, 0)
    return Cone(resid, presid)


def subspace(basis):
    B = np.asarray(basis, float)
    P = B.T.dot(B)
    Q = np.identity(P.shape[0]) - P
    return Cone(lambda x: float(np.abs(Q.dot(x)).max()), lambda v: float(np.abs(P.dot(v)).max()))


# ---- quadratics ---------------------------------------------------------------------------------

def q_value(q, x):
    """q = (coef, center, linear, const) with center/linear None, scalar or array."""
    L, c, l, k = q
    x = np.asarray(x, float)
    c = 0. if c is None else np.asarray(c, float)
    l = 0. if l is None else np.asarray(l, float)
    r = x - c
    return 0.5 * (L or 0.) * float((r ** 2).sum()) + float((l * x).sum()) + (k or 0.)


def q_grad(q, x):
    L, c, l, k = q
    x = np.asarray(x, float)
    c = 0. if c is None else np.asarray(c, float)
    l = 0. if l is None else np.asarray(l, float)
    return (L or 0.) * (x - c) + l + 0. * x


def lagrange_ok(pair, lam, y, v, tol):
    """v in lam * subdifferential of g at y.  Returns None or a message."""
    gy = pair.g(y)
    if not np.isfinite(gy):
        return "result %s outside the domain of the penalty" % (np.asarray(y).tolist(),)
    if not pair.gauge_le(v, lam, tol):
        return "dual feasibility: gauge(residual)=%r > lagrange=%r" % (pair.gauge(v), lam)
    gap = lam * gy - float((np.asarray(v, float) * np.asarray(y, float)).sum())
    if not abs(gap) <= tol * scale(y) * np.size(y):
        return "complementarity gap %r" % gap
    return None


def bound_ok(pair, b, y, v, tol):
    """v in normal cone of {g <= b} at y."""
    if not pair.g_le(y, b, tol):
        return "primal feasibility: g(result)=%r > bound=%r" % (pair.g(y), b)
    gv = pair.gauge(v)
    if not np.isfinite(gv):
        return "residual is not a normal vector (infinite gauge)"
    gap = b * gv - float((np.asarray(v, float) * np.asarray(y, float)).sum())
    if not abs(gap) <= tol * scale(v) * np.size(y):
        return "normal cone gap %r" % gap
    return None


def cone_ok(cone, y, v, tol):
    r = cone.resid(y)
    if not r <= tol:
        return "result outside the cone by %r" % r
    r = cone.polar_resid(v)
    if not r <= tol:
        return "residual outside the polar cone by %r" % r
    ip = float((np.asarray(v, float) * np.asarray(y, float)).sum())
    if not abs(ip) <= tol * scale(v, y) * np.size(y):
        return "residual not orthogonal: %r" % ip
    return None


def simplex_ok(y, v, tol):
    """v normal to the simplex at y: v_i = max v on the support of y"""
    d = simplex_dist(y)
    if not d <= tol:
        return "result off the simplex by %r" % d
    v = np.asarray(v, float).ravel()
    gap = v.max() - float((v * np.asarray(y).ravel()).sum())
    if not abs(gap) <= tol * scale(v) * v.size:
        return "not a projection: gap %r" % gap
    return None


def maximum_ok(y, v, tol):
    d = simplex_dist(v)
    if not d <= tol:
        return "residual off the simplex by %r" % d
    y = np.asarray(y, float).ravel()
    gap = y.max() - float((y * np.asarray(v).ravel()).sum())
    if not abs(gap) <= tol * scale(y) * y.size:
        return "gap %r" % gap
    return None
