"""Transforms of regreg.affine paired with the dense matrix and offset they are defined by."""
import numpy as np
from scipy import sparse
from scipy.linalg import block_diag


class T(object):
    """make() builds the real transform; x -> M vec(x) + b is what it means"""

    def __init__(self, name, make, M, b, ish, osh, key=None):
        self.name, self.make, self.key = name, make, key or name
        self.M = np.asarray(M, float)
        self.b = np.zeros(self.M.shape[0]) if b is None else np.asarray(b, float).reshape(-1)
        self.ish, self.osh = tuple(ish), tuple(osh)
        self.dense = len(self.ish) == 1 and len(self.osh) == 1
        assert self.M.shape == (int(np.prod(self.osh)), int(np.prod(self.ish))), (name, self.M.shape, ish, osh)
        assert self.b.shape == (self.M.shape[0],), name


def ints(shape, k=0):
    """fixed small integer arrays without special structure"""
    n = int(np.prod(shape))
    return (((np.arange(n) * 7 + 3 * k) * (np.arange(n) + k + 2)) % 11 - 4.).reshape(shape)


def elementary():
    import regreg.affine as ra
    out = []

    def add(name, make, M, b, ish, osh):
        out.append(T(name, make, M, b, ish, osh))

    A32, A23, A33, A33b = ints((3, 2)), ints((2, 3), 1), ints((3, 3), 2), ints((3, 3), 4)
    v3, v2 = np.array([1., -2., 0.5]), np.array([2., -1.])
    add("dense32", lambda: ra.linear_transform(A32.copy()), A32, None, (2,), (3,))
    add("dense32+b", lambda: ra.affine_transform(A32.copy(), v3.copy()), A32, v3, (2,), (3,))
    add("dense33", lambda: ra.linear_transform(A33.copy()), A33, None, (3,), (3,))
    add("dense33+b", lambda: ra.affine_transform(A33b.copy(), v3.copy()), A33b, v3, (3,), (3,))
    add("dense23+b", lambda: ra.affine_transform(A23.copy(), v2.copy()), A23, v2, (3,), (2,))
    add("row", lambda: ra.linear_transform(v3.copy()), v3[None], None, (3,), (1,))
    add("row+b", lambda: ra.affine_transform(v3.copy(), np.array([2.])), v3[None], [2.], (3,), (1,))
    add("diag", lambda: ra.linear_transform(v3.copy(), diag=True), np.diag(v3), None, (3,), (3,))
    add("diag+b", lambda: ra.affine_transform(v3.copy(), v3[::-1].copy(), diag=True), np.diag(v3), v3[::-1], (3,), (3,))
    add("shift", lambda: ra.affine_transform(None, v3.copy()), np.eye(3), v3, (3,), (3,))
    add("csr", lambda: ra.linear_transform(sparse.csr_matrix(A33)), A33, None, (3,), (3,))
    add("csc", lambda: ra.linear_transform(sparse.csc_matrix(A32)), A32, None, (2,), (3,))
    add("csr+b", lambda: ra.affine_transform(sparse.csr_matrix(A32), v3.copy()), A32, v3, (2,), (3,))
    add("csr+sparse b", lambda: ra.affine_transform(sparse.csr_matrix(A33), sparse.csr_matrix(v3)), A33, v3, (3,), (3,))
    add("coo+sparse col b", lambda: ra.affine_transform(sparse.coo_matrix(A23), sparse.csr_matrix(v2[:, None])), A23, v2, (3,), (2,))
    add("matrix coefs", lambda: ra.linear_transform(A32.copy(), input_shape=(2, 2)), np.kron(A32, np.eye(2)), None, (2, 2), (3, 2))
    add("matrix coefs+b1", lambda: ra.affine_transform(A32.copy(), v3.copy(), input_shape=(2, 2)), np.kron(A32, np.eye(2)),
        np.repeat(v3, 2), (2, 2), (3, 2))
    add("matrix coefs+b2", lambda: ra.affine_transform(A32.copy(), A32[::-1].copy(), input_shape=(2, 2)), np.kron(A32, np.eye(2)),
        A32[::-1], (2, 2), (3, 2))
    add("matrix coefs 33", lambda: ra.linear_transform(A33.copy(), input_shape=(3, 2)), np.kron(A33, np.eye(2)), None, (3, 2), (3, 2))
    add("identity", lambda: ra.identity((3,)), np.eye(3), None, (3,), (3,))
    add("identity2", lambda: ra.identity((3, 2)), np.eye(6), None, (3, 2), (3, 2))
    C3 = np.eye(3) - np.ones((3, 3)) / 3
    add("centering", lambda: ra.centering((3,)), C3, None, (3,), (3,))
    add("centering2", lambda: ra.centering((3, 2)), np.kron(C3, np.eye(2)), None, (3, 2), (3, 2))
    add("scaler", lambda: ra.scaler(v3.copy()), np.diag(v3), None, (3,), (3,))
    add("scaler2", lambda: ra.scaler(A32.copy()), np.diag(A32.ravel()), None, (3, 2), (3, 2))
    add("reshape 6->32", lambda: ra.reshape((6,), (3, 2)), np.eye(6), None, (6,), (3, 2))
    add("reshape 32->6", lambda: ra.reshape((3, 2), (6,)), np.eye(6), None, (3, 2), (6,))
    return out


def rows(index, shape):
    """selection matrix of an index expression on an array of this shape, and the shape selected"""
    k = np.arange(int(np.prod(shape))).reshape(shape)[index]
    return np.eye(int(np.prod(shape)))[k.ravel()], k.shape


def unary(t):
    """all transforms built from one transform"""
    import regreg.affine as ra
    out = []
    n, m = t.M.shape[1], t.M.shape[0]

    def add(name, make, M, b, ish, osh):
        out.append(T("%s(%s)" % (name, t.name), make, M, b, ish, osh, key="%s(%s)" % (name.split("[")[0], t.key)))

    mk = t.make
    add("adjoint", lambda: ra.adjoint(mk()), t.M.T, None, t.osh, t.ish)
    add("aslinear", lambda: ra.aslinear(mk()), t.M, None, t.ish, t.osh)
    for s in (1., -2., 0, 3):
        add("scalar_multiply[%r]" % s, lambda s=s: ra.scalar_multiply(mk(), s), s * t.M, s * t.b, t.ish, t.osh)
    if t.ish == t.osh:
        add("residual", lambda: ra.residual(mk()), np.eye(n) - t.M, -t.b, t.ish, t.osh)
    add("wrap", lambda: ra.affine_transform(mk(), None), t.M, t.b, t.ish, t.osh)
    if len(t.osh) == 1:
        extra = np.resize([1., -1., 2.], m)
        add("wrap+b", lambda: ra.affine_transform(mk(), extra.copy()), t.M, t.b + extra, t.ish, t.osh)
    if not np.any(t.b):
        add("posneg", lambda: ra.posneg(mk()), np.hstack([t.M, -t.M]), None, (2,) + t.ish, t.osh)
    if len(t.ish) == 1:
        if len(t.osh) == 1:
            add("add_intercept", lambda: ra.add_intercept(mk()), np.hstack([np.ones((m, 1)), t.M]), t.b, (n + 1,), t.osh)
            if t.key.split("(")[0].split("+")[0] in ("dense32", "dense33", "dense23", "row", "diag", "shift", "csr", "csc", "coo",
                                                     "identity", "centering"):
                add("tensorize[2]", lambda: ra.tensorize(mk(), 2), np.kron(t.M, np.eye(2)), np.repeat(t.b, 2), t.ish + (2,), t.osh + (2,))
        S, _ = rows(slice(1, 1 + n), (n + 2,))
        add("selector[slice]", lambda: ra.selector(slice(1, 1 + n), (n + 2,), mk()), t.M @ S, t.b, (n + 2,), t.osh)
        idx = list(range(n + 1, 1, -1))
        S, _ = rows(idx, (n + 2,))
        add("selector[list]", lambda: ra.selector(list(idx), (n + 2,), mk()), t.M @ S, t.b, (n + 2,), t.osh)
        idx2 = [0] + list(range(n - 1))                     # an index may be repeated
        S, _ = rows(idx2, (n + 1,))
        add("selector[repeated]", lambda: ra.selector(list(idx2), (n + 1,), mk()), t.M @ S, t.b, (n + 1,), t.osh)
        mask = np.array([True] * (n - 1) + [False, True])
        S, _ = rows(mask, (n + 1,))
        add("selector[mask]", lambda: ra.selector(mask.copy(), (n + 1,), mk()), t.M @ S, t.b, (n + 1,), t.osh)
        S, _ = rows((slice(None), 1), (n, 2))
        add("selector[col]", lambda: ra.selector((slice(None), 1), (n, 2), mk()), t.M @ S, t.b, (n, 2), t.osh)
    else:
        S, _ = rows(slice(1, 1 + n), (n + 2,))
        add("selector[reshape]", lambda: ra.selector(slice(1, 1 + n), (n + 2,), mk(), reshape=t.ish), t.M @ S, t.b, (n + 2,), t.osh)
        S, _ = rows(slice(0, t.ish[0]), (t.ish[0] + 1,) + t.ish[1:])
        add("selector[block]", lambda: ra.selector(slice(0, t.ish[0]), (t.ish[0] + 1,) + t.ish[1:], mk()), t.M @ S, t.b,
            (t.ish[0] + 1,) + t.ish[1:], t.osh)
    add("composition1", lambda: ra.composition(mk()), t.M, t.b, t.ish, t.osh)
    add("vstack1", lambda: ra.vstack([mk()]), t.M, t.b, t.ish, (m,))
    return out


def binary(s, t):
    import regreg.affine as ra
    out = []

    def add(name, make, M, b, ish, osh):
        out.append(T("%s(%s,%s)" % (name, s.name, t.name), make, M, b, ish, osh, key="%s(%s,%s)" % (name.split("[")[0], s.key, t.key)))

    a, b = s.make, t.make
    ms, ns, mt, nt = s.M.shape + t.M.shape
    if s.ish == t.osh:
        add("composition", lambda: ra.composition(a(), b()), s.M @ t.M, s.M @ t.b + s.b, t.ish, s.osh)
        add("dot", lambda: a().dot(b()), s.M @ t.M, s.M @ t.b + s.b, t.ish, s.osh)
    if s.ish == t.ish:
        add("vstack", lambda: ra.vstack([a(), b()]), np.vstack([s.M, t.M]), np.hstack([s.b, t.b]), s.ish, (ms + mt,))
    if s.osh == t.osh:
        add("hstack", lambda: ra.hstack([a(), b()]), np.hstack([s.M, t.M]), s.b + t.b, (ns + nt,), s.osh)
        if s.ish == t.ish:
            add("affine_sum", lambda: ra.affine_sum([a(), b()]), s.M + t.M, s.b + t.b, s.ish, s.osh)
            add("affine_sum[list]", lambda: ra.affine_sum([a(), b()], weights=[2, -3]), 2 * s.M - 3 * t.M, 2 * s.b - 3 * t.b, s.ish, s.osh)
            add("affine_sum[array]", lambda: ra.affine_sum([a(), b(), a()], weights=np.array([0.5, 0., 1.])), 1.5 * s.M, 1.5 * s.b,
                s.ish, s.osh)
    add("product", lambda: ra.product([a(), b()]), block_diag(s.M, t.M), np.hstack([s.b, t.b]), (ns + nt,), (ms + mt,))
    return out
