"""Linear and affine maps: every transform and every combination of transforms against its dense matrix."""
import itertools
import warnings
import numpy as np
from scipy import sparse
from mc import affine as F, buffers

PROPERTY = "C09"
LEVEL = "model_checking"
RULE = ("every elementary transform, every combinator applied to every transform or compatible pair, and combinators of "
        "combinators up to the stated nesting; each map is run on the complete basis of its domain (which determines a linear "
        "map) plus integer, two-column and repeated inputs and compared with the dense matrix and offset computed independently")
ASSUMPTIONS = ["a linear map is decided by its values on a basis; linearity itself is checked on the listed extra inputs only",
               "outputs that are the input itself (identity-like maps) are allowed; earlier outputs must never change later"]
BOUNDS = {"quick": "27 elementary transforms, all unary combinators nested to depth 2, all binary ones over compatible pairs, unary over binary for a sub-family",
          "thorough": "the same with binary combinators over depth-1 transforms and unary combinators to depth 3"}


def units(tier):
    el = F.elementary()
    out = []
    for i, e in enumerate(el):
        out.append(("unary/%s" % e.name, ("unary", i)))
        out.append(("binary/%s" % e.name, ("binary", i)))
    return out


def weight(name, args):
    return 2


def run(R, name, args, tier):
    kind, i = args
    el = F.elementary()
    e = el[i]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "unary":
            explore(R, e, 3 if tier == "thorough" else 2)
            return
        others = el if tier == "quick" else el + [u for x in el for u in F.unary(x)]
        for o in others:
            for b in F.binary(e, o):
                check(R, b)
                if tier == "thorough" or i < 8:
                    for u in F.unary(b):
                        check(R, u)


def explore(R, t, depth):
    check(R, t)
    if depth:
        for u in F.unary(t):
            explore(R, u, depth - 1)


def check(R, t, rtol=1e-9, columns=False, dense=True):
    key = "affine:%s" % t.key
    info = dict(transform=t.name)
    R.state()
    real = None
    with R.guard(key, info):
        real = t.make()
    if real is None:
        return
    M, b, ish, osh = t.M, t.b, t.ish, t.osh
    n, m = M.shape[1], M.shape[0]
    R.context = t.name
    with R.guard(key + ":shape", info):
        R.check(tuple(real.input_shape) == ish and tuple(real.output_shape) == osh, key + ":shape",
                lambda: "shapes %r -> %r, should be %r -> %r" % (real.input_shape, real.output_shape, ish, osh), info)
    held = []

    def apply(what, f, x, want, shape):
        R.trans()
        x0, s0 = x.copy(), x.shape
        with R.guard("%s:%s" % (key, what), info):
            y = f(x)
            R.trace()
            R.check(np.shape(y) == shape and np.allclose(np.asarray(y, float), want.reshape(shape), atol=rtol * max(1, np.abs(want).max(initial=0))), "%s:%s" % (key, what),
                    lambda: "gives %r, the matrix gives %r" % (np.asarray(y).tolist(), want.reshape(shape).tolist()),
                    lambda: dict(info, x=x0))
            R.check(x.shape == s0 and np.array_equal(x, x0), "%s:%s:mutates" % (key, what), "argument modified", lambda: dict(info, x=x0))
            if not np.may_share_memory(y, x):
                held.append((y, np.array(y), what))

    for x in inputs(n):
        v = x.astype(float)
        apply("linear_map", real.linear_map, x.reshape(ish).copy(), M @ v, osh)
        apply("affine_map", real.affine_map, x.reshape(ish).copy(), M @ v + b, osh)
        if dense:
            apply("dot", real.dot, x.reshape(ish).copy(), M @ v, osh)
    for u in inputs(m):
        v = u.astype(float)
        apply("adjoint_map", real.adjoint_map, u.reshape(osh).copy(), M.T @ v, ish)
        if dense:
            apply("T", real.T.linear_map, u.reshape(osh).copy(), M.T @ v, ish)
    for y, y0, what in held:
        if not np.array_equal(y, y0):
            R.fail("%s:%s:alias" % (key, what), "a result returned earlier was overwritten by a later call", info)
            break
    if dense:
        v, w = np.resize([2., -1., 0.5, 3.], n).reshape(ish), np.resize([1., -2., 3.], m).reshape(osh)
        buffers.explore(R, key + ":calls", lambda: real, [(c, a, lambda o, x, c=c: getattr(o, c)(x)) for c, a in (("linear_map", "x"), ("affine_map", "x"), ("adjoint_map", "u"))],
                        dict(x=[v, 1 - v], u=[w, 1 - w]), info, fresh=False)
    with R.guard(key + ":offset", info):
        off = real.affine_offset
        got = np.zeros(osh) if off is None else np.asarray(off, float)
        if got.ndim == 1 and len(osh) == 2:
            got = got[:, None] + np.zeros(osh)
        R.check(got.size == m and np.allclose(got.reshape(-1), b), key + ":offset",
                lambda: "affine_offset %r, should be %r" % (off, b.tolist()), info)
        R.outcome("offset=%s" % (off is not None))
    if columns:                     # these maps also act on the columns of a matrix
        for k in (1, 2, 3):
            x, u = F.ints((n, k)), F.ints((m, k), 1)
            apply("linear_map:columns", real.linear_map, x.copy(), M @ x, (m, k))
            apply("affine_map:columns", real.affine_map, x.copy(), M @ x, (m, k))
            apply("adjoint_map:columns", real.adjoint_map, u.copy(), M.T @ u, (n, k))
    if t.dense and dense:
        from regreg.affine import todense
        with R.guard(key + ":todense", info):
            D = np.asarray(todense(real), float)
            R.check(D.shape == (m, n) and np.allclose(D, M, rtol=rtol, atol=rtol * max(1, np.abs(M).max())), key + ":todense", lambda: "todense gives %r" % D.tolist(), info)
        with R.guard(key + ":matrix-shape", info):
            R.check(real.shape == (m, n) and real.ndim == 2, key + ":matrix-shape", lambda: "shape %r ndim %r" % (real.shape, real.ndim), info)
    R.outcome("%s->%s" % (len(ish), len(osh)))
    R.sample(dict(info, matrix=M))


def inputs(n):
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1
        yield e
    yield np.zeros(n)
    yield np.resize([2., -1., 0.5, 3.], n)
    yield np.resize([1, -2, 3], n)              # integer input
