"""The family of nonsmooth terms under check, each with its reference semantics (see ref.py)."""
import itertools
import numpy as np
from . import ref

inf = np.inf


class Case(object):
    """One atom in one form; `param` is the Lagrange multiplier / bound (None for cones)."""

    def __init__(self, name, shape, make, kind, pair, params, prox=True, tol=2e-7, group="basic", seps=(1.,),
                 conj=True, alphabet=None, tags=()):
        self.name, self.shape, self.make, self.kind, self.pair = name, tuple(shape), make, kind, pair
        self.params, self.prox, self.tol, self.group, self.conj = params, prox, tol, group, conj
        self.alphabet, self.tags = alphabet, tags
        self.size = int(np.prod(self.shape))

    # f, its conjugate and the test v in subdifferential f(y), for the atom without offset/quadratic
    def val(self, param, y, tol=1e-9):
        k = self.kind
        if k == "lagrange":
            g = self.pair.g(y)
            return param * g if np.isfinite(g) else inf
        if k == "bound":
            return 0. if self.pair.g(y) <= param + tol * ref.scale(y) else inf
        if k == "cone":
            return 0. if self.pair.resid(y) <= tol * ref.scale(y) else inf
        if k == "simplex":
            return 0. if ref.simplex_dist(y) <= tol else inf
        if k == "maximum":
            return float(np.max(y))

    def conjval(self, param, u, tol=1e-9):
        k = self.kind
        if k == "lagrange":
            return 0. if self.pair.gauge(u) <= param + tol * ref.scale(u) else inf
        if k == "bound":
            g = self.pair.gauge(u)
            return param * g if np.isfinite(g) else inf
        if k == "cone":
            return 0. if self.pair.polar_resid(u) <= tol * ref.scale(u) else inf
        if k == "simplex":
            return float(np.max(u))
        if k == "maximum":
            return 0. if ref.simplex_dist(u) <= tol else inf

    def margin(self, param, y):
        """signed infeasibility of y for indicator-like parts; None when f is finite everywhere"""
        k = self.kind
        if k == "bound":
            return self.pair.g(y) - param
        if k == "cone":
            return self.pair.resid(y)
        if k == "simplex":
            return ref.simplex_dist(y)
        if k == "lagrange":
            return 0. if np.isfinite(self.pair.g(y)) else inf
        return None

    def ok(self, param, y, v, tol=None):
        tol = (self.tol if tol is None else tol) * ref.scale(y, v)
        k = self.kind
        if k == "lagrange":
            return ref.lagrange_ok(self.pair, param, y, v, tol)
        if k == "bound":
            return ref.bound_ok(self.pair, param, y, v, tol)
        if k == "cone":
            return ref.cone_ok(self.pair, y, v, tol)
        if k == "simplex":
            return ref.simplex_ok(y, v, tol)
        if k == "maximum":
            return ref.maximum_ok(y, v, tol)


A6 = (-2., -1., -0.5, 0., 1., 2.5)
A5 = (-2., -0.5, 0., 1., 2.5)
A4 = (-2., 0., 1., 1.5)
A3 = (-1., 0., 2.)


def grid(alphabet, shape):
    n = int(np.prod(shape))
    for t in itertools.product(alphabet, repeat=n):
        yield np.array(t).reshape(shape)


def alphabet_for(size, budget):
    for a in (A6, A5, A4, A3):
        if len(a) ** size <= budget:
            return a
    return (0., 1.5) if 3 ** size > budget else A3


def seminorm_cases(name, maker, shape, pair, lag=(0., 0.3, 1., 2.5), bnd=(0., 0.7, 1., 3.), modes="lb", **kw):
    """maker(lagrange=, bound=, offset=, quadratic=)"""
    out = []
    if "l" in modes:
        out.append(Case(name + ".lagrange", shape,
                        lambda p, **k: maker(lagrange=p, **k), "lagrange", pair, lag, **kw))
    if "b" in modes:
        out.append(Case(name + ".bound", shape,
                        lambda p, **k: maker(bound=p, **k), "bound", pair, bnd, **kw))
    return out


def basic(p):
    import regreg.api as rr
    from regreg.atoms import seminorms as S
    sh = (p,)
    out = []
    for cls, pair in [("l1norm", ref.l1_sup), ("supnorm", ref.sup_l1), ("l2norm", ref.l2_l2),
                      ("positive_part", ref.pospart), ("constrained_max", ref.conmax),
                      ("constrained_positive_part", ref.conpos), ("max_positive_part", ref.maxpos)]:
        c = getattr(S, cls)
        out += seminorm_cases("%s(%d)" % (cls, p), lambda _c=c, **k: _c(sh, **k), sh, pair)
    from regreg.atoms import simplex, cones
    out.append(Case("simplex_constraint(%d)" % p, sh, lambda q, **k: simplex.simplex_constraint(sh, **k),
                    "simplex", None, (None,)))
    out.append(Case("maximum(%d)" % p, sh, lambda q, **k: simplex.maximum(sh, **k), "maximum", None, (None,)))
    for cls, cone in [("nonnegative", ref.nonnegative), ("nonpositive", ref.nonpositive),
                      ("zero", ref.whole), ("zero_constraint", ref.origin)]:
        out.append(Case("%s(%d)" % (cls, p), sh, lambda q, _c=getattr(cones, cls), **k: _c(sh, **k),
                        "cone", cone, (None,)))
    if p >= 2:
        for cls, cone in [("l1_epigraph", ref.epigraph(ref.l1_sup)), ("linf_epigraph", ref.epigraph(ref.sup_l1)),
                          ("l2_epigraph", ref.epigraph(ref.l2_l2))]:
            out.append(Case("%s(%d)" % (cls, p), sh, lambda q, _c=getattr(cones, cls), **k: _c(sh, **k),
                            "cone", cone, (None,)))
            out.append(Case("%s_polar(%d)" % (cls, p), sh,
                            lambda q, _c=getattr(cones, cls + "_polar"), **k: _c(sh, **k),
                            "cone", cone.polar, (None,)))
    if p >= 2:
        from regreg.atoms import linear_constraints as LC
        bases = {"mean": np.ones((1, p)) / np.sqrt(p)}
        if p >= 3:
            B = np.zeros((2, p))
            B[0, :3] = np.array([1., 2., 2.]) / 3
            B[1, :3] = np.array([2., 1., -2.]) / 3
            bases["two"] = B
        for n, B in bases.items():
            s = ref.subspace(B)
            out.append(Case("projection[%s](%d)" % (n, p), sh, lambda q, _B=B, **k: LC.projection(sh, _B, **k),
                            "cone", s, (None,), tags=("linear",)))
            out.append(Case("projection_complement[%s](%d)" % (n, p), sh,
                            lambda q, _B=B, **k: LC.projection_complement(sh, _B, **k),
                            "cone", s.polar, (None,), tags=("linear",)))
    return out


def structured(p):
    from regreg.atoms import weighted_atoms as W, slope as SL, group_lasso as GL, mixed_lasso as ML
    from regreg.atoms import sparse_group_lasso as SG
    sh = (p,)
    out = []
    wsets = {2: [(1., 2.), (0., 1.5), (inf, 1.)],
             3: [(1., 2., 0.5), (0., 1., 2.), (inf, 1., 0.5), (inf, 0., 1.)],
             4: [(1., 2., 0.5, 1.), (0., inf, 1., 2.)],
             5: [(1., 2., 0.5, 1., 0.)]}.get(p, [])
    for w in wsets:
        s = ",".join("%g" % a for a in w)
        out += seminorm_cases("weighted_l1norm[%s]" % s, lambda _w=w, **k: W.l1norm(_w, **k), sh, ref.weighted(w),
                              group="weighted")
        out += seminorm_cases("weighted_supnorm[%s]" % s, lambda _w=w, **k: W.supnorm(_w, **k), sh,
                              ref.weighted_sup(w), group="weighted")
    slw = {2: [(2., 1.)], 3: [(3., 2., 1.), (1., 1., 1.), (2., 0.5, 0.5)], 4: [(2., 1.5, 1.5, 0.2)],
           5: [(3., 2., 1.5, 1., 1.)]}.get(p, [])
    for w in slw:
        s = ",".join("%g" % a for a in w)
        pr = ref.slope_pair(w)
        out += seminorm_cases("slope[%s]" % s, lambda _w=w, **k: SL.slope(_w, **k), sh, pr, modes="l", group="slope")
        out += seminorm_cases("slope_conjugate[%s]" % s, lambda _w=w, **k: SL.slope_conjugate(_w, **k), sh,
                              pr.polar, modes="b", group="slope")
        out += seminorm_cases("slope[%s]" % s, lambda _w=w, **k: SL.slope(_w, **k), sh, pr, modes="b", group="slope",
                              prox=False)
        out += seminorm_cases("slope_conjugate[%s]" % s, lambda _w=w, **k: SL.slope_conjugate(_w, **k), sh,
                              pr.polar, modes="l", group="slope", prox=False)
    grp = {2: [((0, 1), {}), ((3, 3), {3: 0.5})],
           3: [((0, 0, 1), {}), ((2, 1, 2), {1: 2., 2: 0.5}), ((1, 1, 2), {1: 1., 2: 0.}), ((0, 1, 2), {})],
           4: [((0, 0, 1, 1), {0: 1., 1: 2.}), ((0, 1, 0, 2), {0: 0.7, 2: 0.})],
           5: [((0, 0, 1, 1, 2), {2: 0.5})]}.get(p, [])
    for g, w in grp:
        full = dict((l, w.get(l, np.sqrt(g.count(l)))) for l in set(g))
        s = "%s;%s" % ("".join(map(str, g)), ",".join("%d:%g" % i for i in sorted(w.items())))
        pr = ref.group(g, full)
        mk = lambda cls, _g=g, _w=w: (lambda **k: cls(np.array(_g), weights=dict(_w), **k))
        out += seminorm_cases("group_lasso[%s]" % s, mk(GL.group_lasso), sh, pr, group="group")
        out += seminorm_cases("group_lasso_dual[%s]" % s, mk(GL.group_lasso_dual), sh, pr.polar, group="group")
        for a in ([1., 0.5] if p <= 3 else [0.5]):
            pr2 = ref.sparse_group(g, a, full)
            mk2 = lambda cls, _g=g, _w=w, _a=a: (lambda **k: cls(np.array(_g), _a, weights=dict(_w), **k))
            nm = "[%s;l1=%g]" % (s, a)
            sgt = dict(group="sgl")
            out += seminorm_cases("sparse_group_lasso" + nm, mk2(SG.sparse_group_lasso), sh, pr2, modes="l", **sgt)
            out += seminorm_cases("sparse_group_lasso" + nm, mk2(SG.sparse_group_lasso), sh, pr2, modes="b",
                                  prox=False, **sgt)
            out += seminorm_cases("sparse_group_lasso_dual" + nm, mk2(SG.sparse_group_lasso_dual), sh, pr2.polar,
                                  modes="b", **sgt)
            out += seminorm_cases("sparse_group_lasso_dual" + nm, mk2(SG.sparse_group_lasso_dual), sh, pr2.polar,
                                  modes="l", prox=False, **sgt)
    # unequal lasso weights
    if p == 3:
        g, a, w = (0, 0, 1), (0.2, 1., 0.), {0: 0.5}
        full = {0: 0.5, 1: 1.}
        pr2 = ref.sparse_group(g, a, full)
        mk2 = lambda cls, g=g, a=a, w=w: (lambda **k: cls(np.array(g), a, weights=dict(w), **k))
        out += seminorm_cases("sparse_group_lasso[uneq]", mk2(SG.sparse_group_lasso), sh, pr2, modes="l", group="sgl")
        out += seminorm_cases("sparse_group_lasso_dual[uneq]", mk2(SG.sparse_group_lasso_dual), sh, pr2.polar,
                              modes="b", group="sgl")
    # epigraph cones of the group norms: dimension p = len(groups) + 1
    grpc = {3: [((0, 0), {0: 0.5}), ((0, 1), {})], 4: [((0, 0, 1), {}), ((2, 1, 2), {1: 2., 2: 0.5})],
            5: [((0, 0, 1, 1), {0: 1., 1: 2.})]}.get(p, [])
    for g, w in grpc:
        full = dict((l, w.get(l, np.sqrt(g.count(l)))) for l in set(g))
        pr = ref.group(g, full)
        s = "[%s;%s]" % ("".join(map(str, g)), ",".join("%d:%g" % i for i in sorted(w.items())))
        for nm, cone in [("group_lasso_epigraph", ref.epigraph(pr)),
                         ("group_lasso_epigraph_polar", ref.epigraph(pr).polar),
                         ("group_lasso_dual_epigraph", ref.epigraph(pr.polar)),
                         ("group_lasso_dual_epigraph_polar", ref.epigraph(pr.polar).polar)]:
            out.append(Case(nm + s, sh, lambda q, _c=getattr(GL, nm), _g=g, _w=w, **k:
                            _c(np.array(_g), weights=dict(_w), **k), "cone", cone, (None,), group="groupcone"))
    U, L, P, N = -1, -2, -3, -4
    st = {2: [((L, P), {}), ((N, U), {}), ((0, 0), {0: 2.})],
          3: [((L, P, N), {}), ((0, 0, L), {0: 1.}), ((U, 0, 0), {}), ((P, P, L), {}), ((0, 1, N), {0: 2., 1: .5})],
          4: [((U, L, P, N), {}), ((0, L, 0, P), {0: 1.5}), ((1, 0, N, 1), {0: 1., 1: 2.})],
          5: [((U, L, P, 0, 0), {}), ((0, 1, N, 1, L), {1: 0.5})]}.get(p, [])
    for s, w in st:
        full = dict((l, w.get(l, np.sqrt(s.count(l)))) for l in set(s) - {U, L, P, N})
        pr = ref.mixed(s, full)
        nm = "[%s;%s]" % (",".join(map(str, s)), ",".join("%d:%g" % i for i in sorted(w.items())))
        out.append(Case("mixed_lasso" + nm, sh, lambda q, _s=s, _w=w, **k:
                        ML.mixed_lasso(np.array(_s), q, weights=dict(_w), **k), "lagrange", pr, (0., 0.3, 1., 2.5),
                        group="mixed"))
        out.append(Case("mixed_lasso_dual" + nm, sh, lambda q, _s=s, _w=w, **k:
                        ML.mixed_lasso_dual(np.array(_s), q, weights=dict(_w), **k), "bound", pr.polar,
                        (0., 0.3, 1., 2.5), group="mixed"))
    return out


def matrix(shape):
    from regreg.atoms import block_norms as B, svd_norms as V, sparse_group_block as SB, seminorms as S
    out = []
    n = "(%d,%d)" % shape
    for cls, pair in [("l1_l2", ref.block(ref.l2_l2, shape)), ("linf_l2", ref.block(ref.l2_l2, shape).polar),
                      ("l1_l1", ref.block(ref.l1_sup, shape)), ("linf_linf", ref.block(ref.l1_sup, shape).polar)]:
        out += seminorm_cases(cls + n, lambda _c=getattr(B, cls), **k: _c(shape, **k), shape, pair, group="block")
    for a, w in [(1., 0.5), (0.3, 1.), (0., 1.), (1., 0.)]:
        pr = ref.sparse_block(shape, a, w)
        nm = "%s[%g,%g]" % (n, a, w)
        out += seminorm_cases("sparse_group_block" + nm, lambda _a=a, _w=w, **k: SB.sparse_group_block(
            shape, _a, _w, **k), shape, pr, modes="l", group="sgb")
        out += seminorm_cases("sparse_group_block_dual" + nm, lambda _a=a, _w=w, **k: SB.sparse_group_block_dual(
            shape, _a, _w, **k), shape, pr.polar, modes="b", group="sgb")
        out += seminorm_cases("sparse_group_block" + nm, lambda _a=a, _w=w, **k: SB.sparse_group_block(
            shape, _a, _w, **k), shape, pr, modes="b", group="sgb", prox=False)
        out += seminorm_cases("sparse_group_block_dual" + nm, lambda _a=a, _w=w, **k: SB.sparse_group_block_dual(
            shape, _a, _w, **k), shape, pr.polar, modes="l", group="sgb", prox=False)
    nu = ref.nuclear(shape)
    out += seminorm_cases("nuclear_norm" + n, lambda **k: V.nuclear_norm(shape, **k), shape, nu, group="svd")
    out += seminorm_cases("operator_norm" + n, lambda **k: V.operator_norm(shape, **k), shape, nu.polar, group="svd")
    for nm, cone in [("nuclear_norm_epigraph", ref.epigraph(nu, shape)),
                     ("nuclear_norm_epigraph_polar", ref.epigraph(nu, shape).polar),
                     ("operator_norm_epigraph", ref.epigraph(nu.polar, shape)),
                     ("operator_norm_epigraph_polar", ref.epigraph(nu.polar, shape).polar)]:
        out.append(Case(nm + n, (shape[0] * shape[1] + 1,), lambda q, _c=getattr(V, nm), **k: _c(shape, **k),
                        "cone", cone, (None,), group="svdcone"))
    # generic block atoms built from a row atom
    for rc, rp in [("l1norm", ref.l1_sup), ("l2norm", ref.l2_l2), ("supnorm", ref.sup_l1)]:
        out += seminorm_cases("block_sum[%s]%s" % (rc, n), lambda _c=getattr(S, rc), **k: B.block_sum(
            _c, shape, **k), shape, ref.block(rp, shape), modes="l", group="blockgen")
        mx = ref.Pair(lambda x, _p=rp: float(max(_p.g(r) for r in ref.rows(x, shape))),
                      lambda v, _p=rp: float(sum(_p.gauge(r) for r in ref.rows(v, shape))))
        out += seminorm_cases("block_max[%s]%s" % (rc, n), lambda _c=getattr(S, rc), **k: B.block_max(
            _c, shape, **k), shape, mx, modes="b", group="blockgen")
        out += seminorm_cases("block_max[%s]%s" % (rc, n), lambda _c=getattr(S, rc), **k: B.block_max(
            _c, shape, **k), shape, mx, modes="l", group="blockgen", prox=False)
        out += seminorm_cases("block_sum[%s]%s" % (rc, n), lambda _c=getattr(S, rc), **k: B.block_sum(
            _c, shape, **k), shape, ref.block(rp, shape), modes="b", group="blockgen", prox=False)
    return out
