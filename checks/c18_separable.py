"""Penalties that are separate on groups of coordinates: value, proximal map, conjugate, solutions, overlap detection."""
import itertools
import warnings
import numpy as np
from mc import atoms as A, ref, prox
from mc.prox import vec, make_quad

PROPERTY = "C18"
LEVEL = "model_checking"
RULE = ("every layout of groups, every ordered pair of penalties on the groups (with and without offsets and quadratics of their own), every "
        "form of the quadratic and every point of the grid; each group of the result is decided by the optimality certificate of its own "
        "penalty, coordinates in no group by stationarity")
ASSUMPTIONS = ["a separable penalty has no offset of its own (its parts may)", "group index objects are those numpy accepts (slices, integers, index arrays, boolean masks, tuples of them)"]
BOUNDS = {"quick": "shapes of 2 to 6 coordinates and 2x3 arrays, 9 layouts, 14x14 pairs of penalties (a third of them in seven of the layouts), 16 points; overlap of all pairs and triples of 11 index objects",
          "thorough": "as quick with 81 points, 22x22 pairs and six quadratic forms"}

F, T = False, True
# name, shape, groups, reshapes
LAYOUTS = [
    ("halves", (4,), [slice(0, 2), slice(2, 4)], []),
    ("strided", (4,), [slice(0, 4, 2), slice(1, 4, 2)], []),
    ("indices", (4,), [[3, 0], np.array([1, 2])], []),
    ("masks", (4,), [np.array([T, F, T, F]), np.array([F, T, F, T])], []),
    ("uncovered", (6,), [slice(1, 3), [5, 0]], []),
    ("columns", (2, 3), [(slice(None), 0), (slice(None), 2)], []),
    ("rows", (3, 2), [0, 2], []),
    ("order", (5,), [slice(3, 5), slice(0, 2)], []),
    ("negative", (4,), [slice(-2, None), slice(None, 2)], []),
]
# (4,)-groups seen as 2x2 matrices
MATRIX = [
    ("slice", (6,), [slice(0, 4), slice(4, 6)], [(2, 2), None]),
    ("fancy", (6,), [[5, 0, 3, 1], [2, 4]], [(2, 2), None]),
    ("strided", (8,), [slice(0, 8, 2), slice(1, 4, 2)], [(2, 2), None]),
    ("block", (3, 3), [(slice(0, 2), slice(0, 2)), (2, slice(0, 2))], [(4,), (2,)]),
    ("view", (2, 4), [(slice(None), slice(0, 2)), (0, slice(2, 4))], [(4,), None]),
]
NAMES = [("basic", "l1norm(2).lagrange", .3), ("basic", "l1norm(2).bound", .7), ("basic", "supnorm(2).lagrange", 1.), ("basic", "supnorm(2).bound", .7),
         ("basic", "l2norm(2).lagrange", .3), ("basic", "l2norm(2).bound", .7), ("basic", "nonnegative(2)", None), ("basic", "simplex_constraint(2)", None),
         ("basic", "maximum(2)", None), ("basic", "zero_constraint(2)", None), ("basic", "zero(2)", None), ("basic", "constrained_positive_part(2).lagrange", .3),
         ("structured", "group_lasso[01;].lagrange", .3), ("structured", "slope[2,1].lagrange", .3)]
MORE = [("basic", "positive_part(2).bound", .7), ("basic", "constrained_max(2).bound", .7), ("basic", "max_positive_part(2).lagrange", 1.), ("basic", "l1_epigraph(2)", None),
        ("structured", "weighted_l1norm[1,2].bound", .7), ("structured", "mixed_lasso[-1,-2;]", .3), ("basic", "nonpositive(2)", None), ("basic", "projection[mean](2)", None)]


def kinds(tier):
    out = []
    for f, n, p in NAMES + (MORE if tier == "thorough" else []):
        for c in getattr(A, f)(2):
            if c.name == n or n.startswith("group_lasso") and c.name.startswith("group_lasso[01") and c.kind == "lagrange":
                out.append((c, p))
                break
    return out


def big():
    """penalties for a group of four coordinates seen as 2x2, or for the (4,) groups"""
    m = [(c, p) for c in A.matrix((2, 2)) for p in (.7,) if c.prox and c.shape == (2, 2) and c.name.startswith(("nuclear", "l1_l2", "linf_l2", "operator"))]
    v = [(c, .7) for c in A.basic(4) if c.prox and c.shape == (4,) and c.name.startswith(("l1norm", "l2norm"))]
    return m, v


def units(tier):
    ks = kinds(tier)
    us = [("pairs/%s/%d" % (l[0], i), ("pairs", j, i)) for j, l in enumerate(LAYOUTS) for i in range(len(ks))]
    us += [("shapes/%s" % l[0], ("shapes", j)) for j, l in enumerate(MATRIX)]
    us += [("history/%s/%d" % (LAYOUTS[j][0], i), ("history", i, j)) for i in range(len(HISTORIES)) for j in (0, 4)]
    us += [("overlap", ("overlap",))] + [("problem/%s" % l[0], ("problem", j)) for j, l in enumerate(LAYOUTS + MATRIX)]
    return us


def run(R, name, args, tier):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()["run_" + args[0]](R, *args[1:], tier=tier)


class Part(object):
    def __init__(self, case, param, group, reshape, variant, shape):
        self.case, self.param, self.group = case, param, group
        own = case.shape
        if reshape is not None and tuple(reshape) != own:
            raise ValueError
        self.off = vec((.5, -1.), own) if variant & 1 else None
        self.own = (0, None, vec((1., -.5), own), 1.) if variant & 2 else None
        self.name = "%s%s%s" % (case.name, "-offset" if variant & 1 else "", "-linear" if variant & 2 else "")

    def build(self):
        k = {}
        if self.off is not None:
            k["offset"] = self.off.copy()
        if self.own is not None:
            k["quadratic"] = make_quad(self.own)
        return self.case.make(self.param, **k)

    def y(self, x):
        z = np.asarray(x)[self.group].reshape(self.case.shape)
        return z, (z if self.off is None else z - self.off)

    def ok(self, x, v):
        z, y = self.y(x)
        u = np.asarray(v)[self.group].reshape(self.case.shape)
        if self.own is not None:
            u = u - ref.q_grad(self.own, z)
        return self.case.ok(self.param, y, u)

    def val(self, x, tol=1e-6):
        z, y = self.y(x)
        return self.case.val(self.param, y, tol) + (ref.q_value(self.own, z) if self.own is not None else 0.)

    def conj(self, u, tol=1e-6):                      # sup <u, z> - f(z - off) - <l, z> - k
        w = np.asarray(u)[self.group].reshape(self.case.shape)
        if self.own is not None:
            w = w - self.own[2]
        c = self.case.conjval(self.param, w, tol) - (self.own[3] if self.own is not None else 0.)
        return c + (float((w * self.off).sum()) if self.off is not None else 0.)


def points(shape, tier, coarse=False):
    n = int(np.prod(shape))
    if n <= 4:
        a = (-1., 0., 2.) if tier == "thorough" else (-1.2, 1.5)
        return list(A.grid(a, shape))
    pats = [(1., -2., .5), (-1., 0., 3.), (2., 2., -1., .3), (0.,), (-.2, .1, .4, -1.5, 2.5), (5., -4., 1., 0.)]
    return [vec(p, shape) for p in (pats if tier == "quick" else pats + [np.roll(p, 1) for p in pats] + [-np.array(p) for p in pats])]


def quad_forms(shape, tier):
    z0 = np.zeros(shape)
    out = [("center", lambda z: (1.5, z, 0, 0)), ("linear", lambda z: (.4, 0, -.4 * z, 3.)), ("both", lambda z: (2., z - 1., -2. * np.ones(shape), -1.)),
           ("none", lambda z: (1., None, -z, None))]
    return out


def run_pairs(R, layout, first, tier):
    name, shape, groups, shapes = LAYOUTS[layout]
    ks = kinds(tier)
    a, pa = ks[first]
    for j, (b, pb) in enumerate(ks):
        if tier == "quick" and name not in ("halves", "uncovered") and (first + j) % 3:
            continue
        for va, vb in ((0, 0), (1, 2), (3, 1)) if tier == "thorough" or (first + j) % 2 == 0 else ((0, 0), (2, 3)):
            parts = [Part(a, pa, groups[0], None, va, shape), Part(b, pb, groups[1], None, vb, shape)]
            separable_case(R, "pairs", name, shape, parts, groups, shapes, tier)


def run_shapes(R, layout, tier):
    name, shape, groups, shapes = MATRIX[layout]
    m, v = big()
    for a, pa in (m if shapes[0] == (2, 2) else v):
        for b, pb in kinds(tier):
            for va, vb in ((0, 0), (1, 2), (3, 1)):
                parts = [Part(a, pa, groups[0], shapes[0], va, shape), Part(b, pb, groups[1], shapes[1], vb, shape)]
                separable_case(R, "shapes", name, shape, parts, groups, shapes, tier)


def separable_case(R, key, layout, shape, parts, groups, shapes, tier):
    from regreg.problems.separable import separable
    free = np.ones(shape, bool)
    for g in groups:
        free[g] = False
    tags = "+".join(sorted(set(p.case.kind for p in parts)))
    for own in (None, (0, None, vec((1., -.5, .25), shape), 2.), (.7, vec((1., -1.), shape), vec((0., .5, 1.), shape), 2.)):
        if own is not None and any(p.own is not None or p.off is not None for p in parts) and tier == "quick":
            continue
        info = dict(layout=layout, shape=shape, penalties=[p.name for p in parts], params=[p.param for p in parts], own=own)
        R.context = lambda: info
        R.state()
        with R.guard(key, info):
            k = dict(shapes=list(shapes)) if shapes else {}
            s = separable(shape, [p.build() for p in parts], groups, **k)
            if own is not None:
                s.quadratic = make_quad(own)
            before = repr(s)
            for i, z in enumerate(points(shape, tier)):
                who = lambda: dict(info, z=z)
                forms = quad_forms(shape, tier)
                v = s.nonsmooth_objective(z.copy(), check_feasibility=True)
                lo = sum(p.val(z, 1e-6) for p in parts) + (ref.q_value(own, z) if own is not None else 0.)
                hi = sum(p.val(z, -1e-6) for p in parts)
                R.check(v == lo or abs(v - lo) <= 1e-8 * max(1, abs(lo)) or v == np.inf and hi == np.inf, key + ":value",
                        lambda: "value %r, sum of the parts %r" % (v, lo), who)
                if own is None and all(p.case.kind in ("lagrange", "bound") for p in parts):
                    seminorms(R, key, s, parts, z, who)
                for fname, form in forms if tier == "thorough" else (forms[i % 4], forms[(i + 1) % 4]):
                    R.trans()
                    spec = form(z)
                    q = make_quad(spec)
                    x = np.asarray(s.proximal(q))
                    bad = None
                    if x.shape != shape or not np.all(np.isfinite(x)):
                        bad = "result %r" % (x,)
                    else:
                        u = -ref.q_grad(spec, x) - (ref.q_grad(own, x) if own is not None else 0.)
                        bad = [p.ok(x, u) for p in parts]
                        bad = [b for b in bad if b]
                        if not bad and np.any(np.abs(u[free]) > 1e-8 * ref.scale(z)):
                            bad = "coordinates in no group are not stationary"
                    R.trace()
                    R.check(not bad, key + ":prox", lambda: "%s form: %s" % (fname, bad), lambda: dict(info, z=z, form=fname, result=x))
                    R.check(abs(q.objective(z, "func") - ref.q_value(spec, z)) <= 1e-9 * ref.scale(z) ** 2 and np.shape(q.linear_term) in ((), shape) and np.shape(q.center) in ((), shape), key + ":mutates", "the quadratic given to the proximal map was changed", who)
                val, xs = None, None
                if i == 0:
                    q = make_quad(forms[0][1](z))
                    xs, val = s.proximal_optimum(q)
                    want = sum(p.val(xs) for p in parts) + ref.q_value(forms[0][1](z), xs) + (ref.q_value(own, xs) if own is not None else 0.)
                    R.check(abs(val - want) <= 1e-8 * max(1, abs(want)), key + ":optimum", lambda: "proximal optimum %r, should be %r" % (val, want), who)
                    val, xs = s.solve(q, return_optimum=True)
                    R.check(abs(val - want) <= 1e-8 * max(1, abs(want)), key + ":optimum", lambda: "optimum %r of solve, should be %r" % (val, want), who)
            R.check(repr(s) == before, key + ":mutates", "the penalty was changed by evaluation", info)
            conjugate(R, key, s, shape, parts, groups, free, own, info, tier)
            R.outcome("%s %s" % (layout, tags))


def seminorms(R, key, s, parts, z, who):
    """the seminorm and the constraint of a separable penalty are the sums over its parts"""
    gs = [p.case.pair.g(np.asarray(z)[p.group].reshape(p.case.shape)) for p in parts]
    if not np.all(np.isfinite(gs)):
        return
    for lam in (1., 2.5, None):
        if lam is None and any(p.case.kind != "lagrange" for p in parts):
            continue
        want = sum(g * (p.param if lam is None else lam) for g, p in zip(gs, parts))
        v = s.seminorm(z.copy(), lagrange=lam)
        R.trans()
        R.check(abs(v - want) <= 1e-7 * max(1, abs(want)), key + ":seminorm", lambda: "seminorm %r at multiplier %r, should be %r" % (v, lam, want), who)
    for b in (.4, 2., None):
        if b is None and any(p.case.kind != "bound" for p in parts):
            continue
        rs = [p.param if b is None else b for p in parts]
        if any(abs(g - r) <= 1e-4 * max(1., r) for g, r in zip(gs, rs)):
            continue
        want = 0. if all(g < r for g, r in zip(gs, rs)) else np.inf
        v = s.constraint(z.copy(), bound=b)
        R.trans()
        R.check(v == want, key + ":constraint", lambda: "constraint %r at bound %r, should be %r" % (v, b, want), who)


def conjugate(R, key, s, shape, parts, groups, free, own, info, tier, few=None):
    at = points(shape, tier)
    at = at if few is None else [at[i % len(at)] for i in few]
    if own is not None and own[0]:
        c = s.conjugate                               # smooth: value and gradient by the certificate of the supremum
        for u in at[:6]:
            R.trans()
            val, x = c.smooth_objective(u.copy(), "both")
            w = u - ref.q_grad(own, x)
            bad = [b for b in (p.ok(x, w) for p in parts) if b] or (np.abs(w[free]).max() > 1e-7 if free.any() else False)
            want = float((u * x).sum()) - ref.q_value(own, x) - sum(p.val(x) for p in parts)
            R.check(not bad and abs(val - want) <= 1e-7 * max(1, abs(want)), key + ":conjugate", lambda: "smooth conjugate %r with gradient %r: %s, should be %r" % (
                val, x.tolist(), bad, want), lambda: dict(info, u=u))
        return
    lin = 0. if own is None else own[2]
    const = 0. if own is None else own[3]
    c = s.conjugate
    for u in at:
        for fill in (0., None):
            w = u.copy()
            if fill is not None:
                w[free] = (lin + 0. * w)[free]
            elif not free.any():
                continue
            R.trans()
            v = c.nonsmooth_objective(w.copy(), check_feasibility=True)
            r = w - lin
            out = np.any(np.abs(r[free]) > 1e-6)
            lo = np.inf if out else sum(p.conj(r, 1e-6) for p in parts) - const
            hi = np.inf if out else sum(p.conj(r, -1e-6) for p in parts) - const
            R.check(v == lo or abs(v - lo) <= 1e-7 * max(1, abs(lo)) or v == np.inf and hi == np.inf, key + ":conjugate",
                    lambda: "conjugate %r, should be %r" % (v, lo), lambda: dict(info, u=w))
    for z in at[:4]:                    # Moreau's identity
        R.trans()
        p = s.proximal(make_quad((1., z, 0, 0)))
        d = c.proximal(make_quad((1., z, 0, 0)))
        R.check(np.allclose(p + d, z, atol=1e-6 * ref.scale(z)), key + ":conjugate", lambda: "prox and dual prox add to %r instead of %r" % ((p + d).tolist(), z.tolist()),
                lambda: dict(info, z=z))


# ---- one penalty, changed between its uses -----------------------------------------------------
CHANGES = ("parameter0", "parameter1", "offset0", "no-offset1", "linear1", "quadratic0", "whole-linear", "whole-full", "whole-none", "conjugate-edit", "copy")
FULL0 = (.4, None, np.array([.5, -1.]), .5)


def run_history(R, which, layout, tier):
    """every sequence of changes of a separable penalty, used in between and after"""
    from copy import copy
    from regreg.problems.separable import separable
    name, shape, groups, shapes = LAYOUTS[layout]
    a, b = HISTORIES[which]
    cs = [[c for c in A.basic(2) if c.name == n][0] for n in (a, b)]
    free = np.ones(shape, bool)
    for g in groups:
        free[g] = False
    wl, wf = (0, None, vec((1., -.5, .25), shape), 2.), (.7, vec((1., -1.), shape), vec((0., .5, 1.), shape), 2.)
    for n in range(1, 3 if tier == "quick" else 4):
        for seq in itertools.product(CHANGES, repeat=n):
            if any(o[:-1] == "parameter" and len([p for p in cs[int(o[-1])].params if p]) < 2 for o in seq):
                continue
            info = dict(layout=name, penalties=[c.name for c in cs], operations=list(seq))
            R.context = lambda: info
            key = "history"
            with R.guard(key, info):
                params = [[p for p in c.params if p] for c in cs]
                parts = [Part(c, q[0] if q else None, g, None, v, shape) for c, q, g, v in zip(cs, params, groups, (0, 1))]
                s, own = separable(shape, [p.build() for p in parts], groups), None
                glance(R, key, s, shape, parts, groups, free, own, info, tier)
                for op in seq:
                    i = int(op[-1]) if op[-1] in "01" else 0
                    p, t = parts[i], s.atoms[i]
                    if op.startswith("parameter"):
                        p.param = params[i][(params[i].index(p.param) + 1) % len(params[i])]
                        setattr(t, p.case.kind, p.param)
                    elif op == "offset0":
                        p.off = np.array([-.3, .8])
                        t.offset = p.off.copy()
                    elif op == "no-offset1":
                        p.off = t.offset = None
                    elif op == "linear1":
                        p.own = (0, None, np.array([.5, 1.]), 0.)
                        t.quadratic = make_quad(p.own)
                    elif op == "quadratic0":
                        p.own = FULL0
                        t.quadratic = make_quad(p.own)
                    elif op.startswith("whole"):
                        own = {"linear": wl, "full": wf, "none": None}[op[6:]]
                        s.quadratic = make_quad(own if own is not None else (0, 0, 0, 0))
                    elif op == "copy":
                        old, s = s, copy(s)
                        s.atoms = list(s.atoms)
                        for j, q in enumerate(parts):           # the copy goes on with penalties of its own
                            s.atoms[j] = copy(s.atoms[j])
                        old.quadratic = make_quad((3., None, None, 7.))
                    else:
                        c = s.conjugate
                        c.quadratic = make_quad((0, None, vec((9., 7., -8.), shape), 5.))
                    R.trans()
                    glance(R, key, s, shape, parts, groups, free, own, info, tier)
            R.state()
    R.outcome("history:" + name)


HISTORIES = [("l1norm(2).lagrange", "l2norm(2).bound"), ("supnorm(2).bound", "nonnegative(2)"), ("l2norm(2).lagrange", "positive_part(2).lagrange")]


def glance(R, key, s, shape, parts, groups, free, own, info, tier):
    at = points(shape, tier)
    for i, z in enumerate(at[j % len(at)] for j in (1, 6)):
        v = s.nonsmooth_objective(z.copy(), check_feasibility=True)
        lo = sum(p.val(z, 1e-6) for p in parts) + (ref.q_value(own, z) if own is not None else 0.)
        hi = sum(p.val(z, -1e-6) for p in parts)
        R.check(v == lo or abs(v - lo) <= 1e-8 * max(1, abs(lo)) or v == np.inf and hi == np.inf, key + ":value", lambda: "value %r, sum of the parts %r" % (v, lo), info)
        spec = quad_forms(shape, tier)[i][1](z)
        x = np.asarray(s.proximal(make_quad(spec)))
        u = -ref.q_grad(spec, x) - (ref.q_grad(own, x) if own is not None else 0.)
        bad = [b for b in (p.ok(x, u) for p in parts) if b]
        R.check(not bad and not np.any(np.abs(u[free]) > 1e-8 * ref.scale(z)), key + ":prox", lambda: "proximal map returned %r: %s" % (x.tolist(), bad), info)
        R.trace()
    if all(p.own is None or not p.own[0] for p in parts):
        conjugate(R, key, s, shape, parts, groups, free, own, info, tier, few=(2, 9))


# ---- overlap -----------------------------------------------------------------------------------
def run_overlap(R, tier):
    from regreg.problems.separable import has_overlap, separable
    import regreg.api as rr
    one = [slice(0, 2), slice(2, 4), slice(0, 4, 2), slice(1, 4, 2), [0], [3, 1], np.array([T, F, F, T]), slice(0, 4), [2, 0], slice(3, 1), slice(-1, None)]
    two = [(slice(None), 0), (slice(None), slice(1, 3)), 0, 1, (0, 1), (Ellipsis, 2), (slice(0, 1), slice(0, 2)), ([0, 1], [0, 2])]
    for shape, objs in (((4,), one), ((2, 3), two)):
        for n in (1, 2, 3):
            for gs in itertools.product(range(len(objs)), repeat=n):
                gs = [objs[g] for g in gs]
                idx = np.arange(int(np.prod(shape))).reshape(shape)
                sets = [set(np.ravel(idx[g]).tolist()) for g in gs]
                want = any(sets[i] & sets[j] for i in range(n) for j in range(i))
                info = dict(shape=shape, groups=[repr(g) for g in gs])
                R.trans()
                R.trace()
                with R.guard("overlap", info):
                    got = has_overlap(shape, gs)
                    R.check(bool(got) == want, "overlap", lambda: "has_overlap is %r for groups with indices %r" % (got, [sorted(s) for s in sets]), info)
                    if n == 2 and all(sets):
                        ats = [rr.l1norm(np.empty(shape)[g].shape or (1,), lagrange=1.) for g in gs]
                        try:
                            separable(shape, ats, gs, test_for_overlap=True)
                            raised = False
                        except ValueError:
                            raised = True
                        R.check(raised == want, "overlap:constructor", "overlapping groups accepted or disjoint groups refused", info)
                R.outcome("overlap" if want else "disjoint")
    R.state(len(one) + len(two))


# ---- problems ----------------------------------------------------------------------------------
def run_problem(R, layout, tier):
    """separable_problem by its three constructors: the minimiser of the sum"""
    from regreg.problems.separable import separable, separable_problem
    from regreg.smooth.quadratic import signal_approximator
    for name, shape, groups, shapes in (LAYOUTS + MATRIX)[layout:layout + 1]:
        z = vec((1.5, -2., .7, .3, -1.), shape)
        first = kinds(tier)
        if shapes:
            first = big()[0 if shapes[0] == (2, 2) else 1]
        for n, ((a, pa), (b, pb)) in enumerate(itertools.product(first, kinds(tier)[:5])):
            s0, s1 = shapes or (None, None)
            parts = [Part(a, pa, groups[0], s0, 1, shape), Part(b, pb, groups[1], s1, 0, shape)]
            for route, own in (("constructor", None), ("fromatom", None), ("singleton", None), ("fromatom", 0), ("singleton", 1), ("fromatom", 1)):
                if own is not None and tier == "quick" and n % 3:
                    continue
                own = None if own is None else ((0, None, vec((1., -.5, .25), shape), 2.), (.7, vec((1., -1.), shape), vec((0., .5, 1.), shape), 2.))[own]
                info = dict(layout=name, penalties=[p.name for p in parts], route=route, own=own)
                R.trans()
                R.state()
                with R.guard("problem", info):
                    loss = signal_approximator(z.copy())
                    built = [p.build() for p in parts]
                    if route == "constructor":
                        pb = separable_problem(loss, shape, built, groups, **(dict(shapes=list(shapes)) if shapes else {}))
                    else:
                        s = separable(shape, built, groups, initial=z.copy(), **(dict(shapes=list(shapes)) if shapes else {}))
                        if own is not None:
                            s.quadratic = make_quad(own)
                        R.check(np.array_equal(s.coefs, z), "problem:initial", lambda: "initial coefficients %r" % (s.coefs,), info)
                        pb = separable_problem.fromatom(s, loss) if route == "fromatom" else separable_problem.singleton(s, loss)
                    x = np.asarray(pb.solve(tol=1e-13, min_its=20))
                    u = z - x - (0 if own is None else ref.q_grad(own, x))
                    free = np.ones(shape, bool)
                    for g in groups:
                        free[g] = False
                    bad = [b for b in (p.case.ok(p.param, p.y(x)[1], np.where(np.abs(u[p.group]) < 1e-4, 0, u[p.group]).reshape(p.case.shape), 1e-4) for p in parts) if b]
                    R.check(not bad and not np.any(np.abs(u[free]) > 1e-4), "problem", lambda: "solution: %s" % bad, lambda: dict(info, result=x))
                    for sel, p in zip(pb.selectors, parts) if route != "singleton" else ():
                        R.check(np.array_equal(sel.linear_map(x).ravel(), x[p.group].ravel()), "problem:selectors", "selector of a group returns other coordinates", info)
                    R.trace()
                R.outcome(route)
