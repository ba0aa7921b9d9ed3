"""Structured maps (normalisation, differences, multiscale, image differences, blocks, factored matrices) against their definitions."""
import itertools
import warnings
import numpy as np
from scipy import sparse
from mc import affine as F
from checks import c09_affine as C9

PROPERTY = "C10"
LEVEL = "model_checking"
RULE = ("every map of each structured family over a grid of sizes and options, run on the complete basis of its domain and of its "
        "range and compared with the matrix its definition gives, which is built independently entry by entry")
ASSUMPTIONS = ["design matrices come from a fixed list of small integer matrices (with constant, zero, shifted and duplicate columns)",
               "iterative factorisations start from seeded random matrices and are compared at the accuracy their tolerance asks for",
               "normalize is checked with the degrees of freedom conventions its tests fix (ddof with centring, ddof-1 without)"]
BOUNDS = {"quick": "all option combinations; up to 5 rows/knots and 3x4 images; all multiscale interval sets of length up to 4",
          "thorough": "up to 7 knots and order 4, 5x5 images, all sets of up to 3 intervals of length up to 6"}


def units(tier):
    out = [("normalize/%s" % n, ("normalize", n)) for n in designs()]
    out += [("difference", ("difference",)), ("multiscale", ("multiscale",)), ("image", ("image",)), ("blocks", ("blocks",)),
            ("factored", ("factored",)), ("factored-norms", ("factored_norms",))]
    return out


def weight(name, args):
    return 1


def designs():
    A = F.ints((5, 3))
    out = {"ints": A, "shifted": F.ints((4, 2), 1) + 1000., "constant": np.column_stack([A[:, 0], np.ones(5) * 2., A[:, 1]]),
           "zero": np.column_stack([np.zeros(5), A[:, 0]]), "duplicates": np.column_stack([A[:, 0], A[:, 0], -A[:, 0]]),
           "two rows": A[:2], "one small column": A * np.array([1., 1e-8, 1.]), "all small": A * 1e-9, "wide": F.ints((3, 5), 2), "small": A * 1e-4, "one column": A[:, :1], "mostly zero": A * (np.arange(15).reshape(5, 3) % 4 == 0)}
    return out


def forms(A):
    yield "dense", lambda: A.copy()
    if np.all(A == np.round(A)):
        yield "int", lambda: A.astype(int)
    yield "fortran", lambda: np.asfortranarray(A)
    for f in ("csr", "csc", "coo"):
        yield f, lambda f=f: getattr(sparse, f + "_matrix")(A)
    yield "coo split entries", lambda: split(A)


def split(A):
    """a coo matrix in which every entry is stored as two parts"""
    i, j = np.nonzero(A)
    v = A[i, j]
    return sparse.coo_matrix((np.hstack([v / 4, 3 * v / 4]), (np.hstack([i, i]), np.hstack([j, j]))), A.shape)


def run(R, name, args, tier):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + args[0]](R, tier, *args[1:])


def run_normalize(R, tier, dname):
    import regreg.affine as ra
    A = designs()[dname]
    n, p = A.shape
    for fname, form in forms(A):
        for center, scale, intercept, value in itertools.product((True, False), (True, False), (False, True), (1, 3., np.sqrt(n))):
            for ddof in ((1, 0) if center else (1,)):
                if value != 1 and not scale:
                    continue
                M = A - A.mean(0) if center else A.copy()
                if scale:
                    s = np.sqrt((M ** 2).sum(0) / (n - (ddof if center else 0)))
                    M = M * np.where(s > 1e-12 * np.abs(A).max(), value / np.where(s > 0, s, 1), 0)
                if intercept:
                    M = np.column_stack([np.ones(n), M])
                X = form()
                X0 = X.copy()
                opts = dict(center=center, scale=scale, intercept=intercept, ddof=ddof, value=float(value))
                t = F.T("normalize(%s, %s, %r)" % (dname, fname, opts), lambda: ra.normalize(X, **opts), M, None, (M.shape[1],), (n,),
                        key="normalize(%s,%s)" % (fname, "scale" if scale else "noscale"))
                C9.check(R, t, rtol=1e-6)
                d = X - X0
                R.check(not (d.count_nonzero() if sparse.issparse(d) else np.any(d)), t.key + ":mutates", "the caller's matrix was modified",
                        dict(transform=t.name))


def differences(x, order):
    """divided differences, defined row by row; differences across repeated points are zero"""
    x = np.sort(np.asarray(x, float))
    rows = np.eye(len(x))
    for j in range(1, order + 1):
        new = []
        for i in range(len(x) - j):
            h = x[i + j] - x[i]
            new.append((rows[i + 1] - rows[i]) / h if h else np.zeros(len(x)))
        rows = np.array(new)
    return rows


def run_difference(R, tier):
    import regreg.affine.fused_lasso as fl
    top = 7 if tier == "thorough" else 5
    pool = [0., 1., 3., 3.5, -2., 7., 7.]
    for n in range(2, top + 1):
        grids = [list(range(n))] + [list(p) for p in itertools.islice(itertools.permutations(pool[:n]), 720)]
        if n == 7:
            grids = grids[:200]
        grids += [pool[-n:]]
        for knots in grids:
            for order in range(1, min(n, 4 if tier == "thorough" else 3)):
                D = differences(knots, order)
                arg = lambda: np.array(knots) if len(knots) % 2 else list(knots)
                k = "difference:order%d" % order
                info = dict(knots=knots, order=order)
                R.state()
                with R.guard(k, info):
                    got = fl.difference_transform(arg(), order=order).toarray()
                    R.trans()
                    R.check(got.shape == D.shape and np.allclose(got, D), k, lambda: "matrix %r, should be %r" % (got.tolist(), D.tolist()), info)
                if n <= 4 or knots == sorted(knots) or tier == "thorough":
                    C9.check(R, F.T("trend_filter(%r, %d)" % (knots, order), lambda: fl.trend_filter(arg(), order=order), D, None, (n,), (n - order,),
                                    key="trend_filter:order%d" % order), columns=True)
            if len(set(knots)) == n and (n <= 4 or knots == sorted(knots) or tier == "thorough"):
                P = np.linalg.pinv(differences(knots, 1))
                C9.check(R, F.T("trend_filter_inverse(%r)" % (knots,), lambda: fl.trend_filter_inverse(np.array(knots)), P, None, (n - 1,), (n,),
                                key="trend_filter_inverse"), columns=True)
        for order in range(1, min(n, 3)):
            C9.check(R, F.T("trend_filter.grid(%d, %d)" % (n, order), lambda: fl.trend_filter.grid(n, order=order), differences(range(n), order), None,
                            (n,), (n - order,), key="trend_filter.grid"), columns=True)


def multiscale_matrix(p, intervals, scaling=None):
    M = np.zeros((len(intervals), p))
    for k, (i, j) in enumerate(intervals):
        M[k, i:j] = 1. / (j - i)
    M = M - M.mean(1)[:, None]
    if scaling is not None:
        M = M * (np.asarray(scaling)[:, None] if np.ndim(scaling) else scaling)
    return M


def run_multiscale(R, tier):
    from copy import copy
    import regreg.affine.multiscale as ms
    top = 6 if tier == "thorough" else 4
    for p in range(2, top + 1):
        for minsize in [None] + list(range(1, p)):
            def make():
                return ms.multiscale(p, minsize=minsize)
            m = make()
            S = [tuple(int(v) for v in s) for s in m.slices]
            want = [(i, j) for i in range(p) for j in range(i, p) if j - i >= (minsize or int(np.around(p ** (1 / 3.))))]
            R.check(S == want, "multiscale:intervals", lambda: "intervals %r" % (S,), dict(p=p, minsize=minsize))
            for scaling in (None, 2., np.arange(1., len(S) + 1)):
                def mk(scaling=scaling):
                    M = make()
                    M.scaling = scaling
                    return M
                for way, f in (("all", mk), ("copy", lambda: copy(mk())), ("updated", lambda: updated(make(), S, scaling)),
                               ("listed", lambda: ms.multiscale(p, slices=list(S), scaling=scaling))):
                    C9.check(R, F.T("multiscale(%d, %r, %s, %r)" % (p, minsize, way, scaling), f, multiscale_matrix(p, S, scaling), None, (p,),
                                    (len(S),), key="multiscale:%s" % way))
        every = [(i, j) for i in range(p) for j in range(i + 1, p + 1)]
        sets = list(itertools.combinations(every, 1)) + list(itertools.combinations(every, 2))
        sets += list(itertools.combinations(every, 3)) if tier == "thorough" and p <= 5 else []
        sets += [tuple(every), tuple(every[::-1])]
        for S in sets:
            S = list(S)
            for way, f in (("listed", lambda: ms.multiscale(p, slices=list(S))), ("updated", lambda: updated(ms.multiscale(p), S, None)),
                           ("copied", lambda: copy(ms.multiscale(p, slices=list(S))))):
                C9.check(R, F.T("multiscale(%d, %r, %s)" % (p, S, way), f, multiscale_matrix(p, S), None, (p,), (len(S),), key="multiscale:%s" % way))
            statistic(R, ms, p, S)
            with R.guard("multiscale:form_matrix", dict(p=p, slices=S)):
                X, length = ms.multiscale(p).form_matrix(list(S))
                size = np.array([j - i for i, j in S], float)
                want = (multiscale_matrix(p, S) * np.sqrt(size)[:, None]).T
                R.trans()
                R.check(np.allclose(length, size) and np.shape(X) == want.shape and np.allclose(X, want), "multiscale:form_matrix",
                        lambda: "matrix %r and lengths %r, should be %r and %r" % (X, length, want, size), dict(p=p, slices=S))
            if len(S) > 1:
                tuning(R, ms, p, S)


def updated(M, S, scaling):
    M.update_slices(S, scaling=scaling)
    return M


def statistic(R, ms, p, S):
    """SMUCE_stat is the largest scaled absolute interval mean minus its penalty; the transform's own scaling is not used or changed"""
    for Z, sigma, scaling in itertools.product((np.arange(p) ** 2 % 5 * 1. + (np.arange(p) == 0) * 3,), (None, 2.), (None, 3.)):
        M = ms.multiscale(p, slices=list(S), scaling=scaling)
        info = dict(p=p, slices=S, sigma=sigma, scaling=scaling)
        with R.guard("SMUCE_stat", info):
            v, s = ms.SMUCE_stat(M, Z.copy(), sigma=sigma)
            R.trans()
            sizes = np.array([j - i for i, j in S], float)
            T = np.abs(multiscale_matrix(p, S, np.sqrt(sizes)) @ Z) / (sigma or Z.std()) - np.sqrt(2 * np.log(p / sizes))
            R.check(np.isclose(v, T.max()) and np.isclose(T[S.index(tuple(s))], T.max()), "SMUCE_stat", lambda: "%r at %r, should be %r" % (v, s, T), info)
            R.check(M.scaling == scaling, "SMUCE_stat:mutates", "the transform's scaling was changed to %r" % (M.scaling,), info)


def tuning(R, ms, p, S):
    """the tuning parameter is the quantile of the statistic over the stated number of normal draws"""
    for scaling, sigma, q in itertools.product((None, 2.), (None, 2.), (.5, .95)):
        M = ms.multiscale(p, slices=list(S), scaling=scaling)
        info = dict(p=p, slices=S, scaling=scaling, sigma=sigma, quantile=q)
        state = np.random.get_state()
        with R.guard("tuning", info):
            np.random.seed(5)
            got = ms.choose_tuning_parameter(M, ndraw=7, quantile=q, sigma=sigma)
            np.random.seed(5)
            want = []
            sizes = np.array([j - i for i, j in S], float)
            for _ in range(7):
                Z = np.random.standard_normal(p)
                T = np.abs(multiscale_matrix(p, S, np.sqrt(sizes)) @ Z) / (Z.std() if sigma is None else sigma) - np.sqrt(2 * np.log(p / sizes))
                want.append(T.max())
            R.trans()
            w = np.percentile(want, 100 * q)
            R.check(abs(got - w) <= 1e-9, "tuning", lambda: "%r, should be %r" % (got, w), info)
            R.check(M.scaling == scaling, "tuning:mutates", "the transform's scaling was changed", info)
        np.random.set_state(state)


def run_image(R, tier):
    import regreg.affine.image2d as im
    top = 5 if tier == "thorough" else 4
    for m, n in itertools.product(range(1, top + 1), repeat=2):
        info = dict(shape=(m, n))
        at = np.arange(m * n).reshape(m, n)
        down = {(at[i, j], at[i + 1, j]): at[i, j] for i in range(m - 1) for j in range(n)}
        right = {(at[i, j], at[i, j + 1]): at[i, j] for i in range(m) for j in range(n - 1)}
        edges = dict(down)
        edges.update(right)
        with R.guard("image", info):
            R.state()
            small = np.asarray(im.formD_smaller(m, n).todense())
            R.check(sorted(edge(r) for r in small) == sorted(edges), "image:formD_smaller", "rows are not the lattice edges, once each", info)
            D = np.asarray(im.formD(m, n).todense())
            k = m * n - 1
            ok = D.shape == (2 * k, m * n)
            R.check(ok, "image:formD-shape", "shape %r" % (D.shape,), info)
            if not ok:
                continue
            E = [edge(r) for r in D]
            R.check(sorted(e for e in E if e) == sorted(edges), "image:formD", "rows are not the lattice edges, once each", info)
            # the two differences put in one row leave the same vertex, and it is an interior one
            R.check(all(E[i] and (not E[k + i] or edges[E[i]] == edges[E[k + i]]) for i in range(k)), "image:pairs",
                    "differences grouped together leave different vertices", info)
            R.trans(2 * len(E))
        perm = np.arange(2 * k).reshape(2, k).T.ravel()
        C9.check(R, F.T("image2d_differences(%d, %d)" % (m, n), lambda: im.image2d_differences((m, n)), D[perm], None, (m, n), (k, 2), key="image2d"))
        b = F.ints((k, 2), 3)
        C9.check(R, F.T("image2d_differences(%d, %d)+b" % (m, n), lambda: im.image2d_differences((m, n), affine_offset=b.copy()), D[perm], b, (m, n),
                        (k, 2), key="image2d+b"))


def edge(r):
    nz = np.nonzero(r)[0]
    if not len(nz):
        return ()
    return tuple(nz) if len(nz) == 2 and sorted(r[nz]) == [-1, 1] else ("bad", tuple(r))


def run_blocks(R, tier):
    import regreg.affine as ra
    from regreg.affine.block_maps import block_columns, block_rows
    A = {n: F.ints((n, 3), n) for n in (1, 2, 4)}
    off = {n: np.arange(1., n + 1) for n in A}
    sel = lambda i, k, p: np.eye(p * k).reshape(p, k, p * k)[:, i, :]
    for combo in [c for k in (1, 2, 3) for c in itertools.product((1, 2, 4), repeat=k)]:
        for withb in (False, True):
            k = len(combo)
            make = lambda n: ra.affine_transform(A[n].copy(), off[n].copy()) if withb else A[n].copy()
            M = np.vstack([A[n] @ sel(i, k, 3) for i, n in enumerate(combo)])
            b = np.hstack([off[n] for n in combo]) if withb else None
            C9.check(R, F.T("block_columns(%r, %r)" % (combo, withb), lambda: block_columns([make(n) for n in combo]), M, b, (3, k), (sum(combo),),
                            key="block_columns"))
            # block_rows: maps with a common output, one column of the output each
            make = lambda n: ra.affine_transform(A[n].T.copy(), np.arange(3.) + n) if withb else A[n].T.copy()
            M = np.zeros((3, k, sum(combo)))
            at = 0
            for i, n in enumerate(combo):
                M[:, i, at:at + n] = A[n].T
                at += n
            b = np.column_stack([np.arange(3.) + n for n in combo]) if withb else None
            C9.check(R, F.T("block_rows(%r, %r)" % (combo, withb), lambda: block_rows([make(n) for n in combo]), M.reshape(3 * k, -1), b,
                            (sum(combo),), (3, k), key="block_rows"))


def matrices(tier):
    for s in ((3, 2), (2, 3), (3, 3), (4, 2), (1, 3), (3, 1), (1, 1)) + (((5, 4), (4, 6)) if tier == "thorough" else ()):
        for k in range(3):
            yield F.ints(s, k)
        u, v = np.arange(1., s[0] + 1), np.arange(2., s[1] + 2)
        yield np.outer(u, v)
        yield np.outer(u, v) * 1e-3
        yield np.zeros(s)


def run_factored(R, tier):
    from regreg.affine.factored_matrix import factored_matrix, compute_iterative_svd, partial_svd
    from regreg.affine import power_L
    for A in matrices(tier):
        for off in (None, np.arange(1., A.shape[0] + 1)):
            U, d, VT = np.linalg.svd(A, full_matrices=False)
            for keep in range(1, len(d) + 1):
                B = (U[:, :keep] * d[:keep]) @ VT[:keep]
                C9.check(R, F.T("factored(%r, rank %d)" % (A.tolist(), keep), lambda: factored_matrix((U[:, :keep].copy(), d[:keep].copy(), VT[:keep].copy()),
                                affine_offset=off), B, off, (A.shape[1],), (A.shape[0],), key="factored:factors"), dense=False)
                f = factored_matrix((U[:, :keep].copy(), d[:keep].copy(), VT[:keep].copy()), affine_offset=off)
                x0 = np.arange(1., A.shape[1] + 1)
                R.check(np.allclose(f.copy().affine_map(x0), B @ x0 + (0 if off is None else off)), "factored:copy", "the copy is a different map", dict(matrix=A, rank=keep, offset=off))
                R.check(np.allclose(f.X, B) and np.allclose(f.copy().X, B), "factored:X", "the product of the factors is wrong", dict(matrix=A, rank=keep))
            for seed in range(4 if tier == "thorough" else 2):
                np.random.seed(seed)
                info = dict(matrix=A, offset=off, seed=seed)
                with R.guard("factored:matrix", info):
                    R.state()
                    f = factored_matrix(A.copy(), affine_offset=off, tol=1e-13)
                    R.trans()
                    scale = max(1e-12, np.abs(A).max())
                    R.check(np.allclose(f.X, A, atol=1e-4 * scale), "factored:matrix", lambda: "stands for %r" % f.X.tolist(), info)
                    for x in np.eye(A.shape[1]):
                        R.check(np.allclose(f.linear_map(x), A @ x, atol=1e-4 * scale), "factored:linear_map", "wrong product", info)
                        R.check(np.allclose(f.affine_map(x), A @ x + (0 if off is None else off), atol=1e-4 * scale), "factored:affine_map", "wrong", info)
                    for x in np.eye(A.shape[0]):
                        R.check(np.allclose(f.adjoint_map(x), A.T @ x, atol=1e-4 * scale), "factored:adjoint_map", "wrong product", info)
                with R.guard("partial_svd", info):
                    r = np.linalg.matrix_rank(A)
                    for rank in range(1, min(A.shape) + 1):
                        np.random.seed(seed)
                        u, s, vt = partial_svd(A.copy(), rank=rank, tol=1e-13)
                        R.trans()
                        s = np.asarray(s).reshape(-1)
                        want = d[:min(rank, r)] if r else np.zeros(1)
                        R.check(len(s) == len(want) and np.allclose(np.sort(s)[::-1], want, atol=1e-4 * scale), "partial_svd:values",
                                lambda: "singular values %r, should be %r" % (s, want), dict(info, rank=rank))
                        if r:
                            B = (U[:, :len(want)] * want) @ VT[:len(want)]
                            R.check(np.allclose((u * s) @ vt, B, atol=1e-3 * scale), "partial_svd:product", "the truncated product is wrong", dict(info, rank=rank))
                with R.guard("power_L", info):
                    if r:
                        np.random.seed(seed)
                        R.check(np.isclose(power_L(A.copy()), d[0] ** 2, rtol=1e-5), "power_L", "not the largest squared singular value", info)
                        R.trans()


def run_factored_norms(R, tier):
    from regreg.affine import factored_matrix as fm
    for A in matrices(tier):
        if not np.any(A) or np.abs(A).max() < .1:
            continue
        U, d, VT = np.linalg.svd(A, full_matrices=False)
        scale = np.abs(A).max()
        for seed, rank in itertools.product((0, 1), (1, 2, 10)):
            for lag, L in itertools.product((0.3, 2.), (1, 4., 0.5)):
                info = dict(matrix=A, lagrange=lag, lipschitz=L, seed=seed, initial_rank=rank)
                soft = np.maximum(d - lag / L, 0)
                clip = project_l1(d, lag)
                for name, cls, want_l, want_b in (("nuclear", fm.nuclear_norm, soft, clip),
                                                  ("operator", fm.operator_norm, d - project_l1(d, lag / L), np.minimum(d, lag))):
                    np.random.seed(seed)
                    with R.guard("factored-%s" % name, info):
                        R.state()
                        for kind, want in (("lagrange", want_l), ("bound", want_b)):
                            atom = cls(A.shape, initial_rank=rank, **{kind: lag})
                            if name == "nuclear":
                                atom.svd_tol = 1e-13
                            else:
                                atom._nuclear_atom.svd_tol = 1e-13
                            for again in range(2):
                                got = atom.lagrange_prox(A.copy(), lipschitz=L) if kind == "lagrange" else atom.bound_prox(A.copy())
                                R.trans()
                                B = got.X if hasattr(got, "X") else np.column_stack([got.linear_map(e) for e in np.eye(A.shape[1])])
                                R.check(np.allclose(B, (U * want) @ VT, atol=1e-3 * scale), "factored-%s:%s" % (name, kind),
                                        lambda: "call %d gives %r, should be %r" % (again, B.tolist(), ((U * want) @ VT).tolist()), info)
                                R.outcome("rank=%d" % (want > 1e-9).sum())
                            if L == 1:
                                c = atom.conjugate
                                other = {"lagrange": "bound", "bound": "lagrange"}[kind]
                                ok = type(c) is (fm.operator_norm if name == "nuclear" else fm.nuclear_norm) and getattr(c, other) == lag and getattr(c, kind) is None
                                R.check(ok and c.shape == atom.shape, "factored-%s:conjugate" % name, lambda: "conjugate of the %s form is %r" % (kind, c), info)
                                (c if name == "operator" else c._nuclear_atom).svd_tol = 1e-13
                                got = c.lagrange_prox(A.copy(), lipschitz=1) if other == "lagrange" else c.bound_prox(A.copy())
                                B = got.X if hasattr(got, "X") else np.column_stack([got.linear_map(e) for e in np.eye(A.shape[1])])
                                R.trans()
                                R.check(np.allclose(B, (U * (d - want)) @ VT, atol=1e-3 * scale), "factored-%s:moreau" % name,
                                        lambda: "proximal map of the conjugate of the %s form gives %r, should be %r" % (kind, B.tolist(), ((U * (d - want)) @ VT).tolist()), info)
                                back = c.conjugate
                                R.check(type(back) is cls and getattr(back, kind) == lag, "factored-%s:double" % name, lambda: "double conjugate %r" % (back,), info)


def project_l1(d, b):
    if d.sum() <= b:
        return d
    for k in range(1, len(d) + 1):
        t = (np.sort(d)[::-1][:k].sum() - b) / k
        v = np.maximum(d - t, 0)
        if np.isclose(v.sum(), b):
            return v
