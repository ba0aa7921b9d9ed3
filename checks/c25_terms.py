"""Decompositions, certificates, group screening and comparison of penalties agree with their definitions."""
import copy
import itertools
import warnings
import numpy as np
from mc import buffers, atoms as A, ref, prox

PROPERTY = "C25"
LEVEL = "model_checking"
RULE = ("terms, dual ball membership and certificates of every penalty at every grid point against the definition on each group; screening and KKT checks at "
        "every (groups, weights, pair of Lagrange values, point) and every perturbation of one group; comparison of every pair of penalties")
ASSUMPTIONS = ["membership is not asked within 1e-4 (relative) of the boundary", "KKT checks are asked at solutions and at points that violate optimality by more than ten times the tolerance",
               "comparisons are between penalties without offset or quadratic (the library compares the penalty only)"]
BOUNDS = {"quick": "all penalties of dimension 2-4 and matrices up to 3x2, at most 125 points each; 850 penalties compared in pairs",
          "thorough": "dimension 2-5 and matrices up to 3x3, at most 1300 points each; all penalties of dimension 1-5 and four matrix shapes compared in pairs"}


def factories(tier):
    if tier == "quick":
        return [("basic", (2, 3), 64), ("structured", (2, 3), 64), ("structured", (4,), 81), ("matrix", ((2, 2),), 81), ("matrix", ((3, 2),), 64)]
    return [("basic", (1, 2, 3), 216), ("basic", (4,), 1296), ("structured", (2, 3), 216), ("structured", (4,), 1296), ("structured", (5,), 1024),
            ("matrix", ((1, 2), (2, 1), (2, 2)), 256), ("matrix", ((3, 2), (2, 3)), 730), ("matrix", ((3, 3),), 512)]


def compared(tier):
    return [("basic", 2), ("basic", 3), ("structured", 2), ("structured", 3), ("matrix", (2, 2))] + ([] if tier == "quick" else [
        ("basic", 1), ("basic", 4), ("structured", 4), ("structured", 5), ("matrix", (3, 2)), ("matrix", (2, 3)), ("matrix", (1, 2))])


def units(tier):
    out = []
    for f, dims, budget in factories(tier):
        for d in dims:
            for c in getattr(A, f)(d):
                if c.group in ("groupcone", "svdcone") or "epigraph" in c.name:
                    b = min(budget, 81)
                else:
                    b = budget
                out.append(("point/%s/%s" % (f, c.name), ("point", f, d, c.name, A.alphabet_for(c.size, b // 3 if "sparse_group" in c.name and "dual" in c.name else b))))
    out += [("group/%d" % i, ("group", i)) for i in range(len(GROUPS))]
    n = len(compared(tier))
    return out + [("equal/%d/%d" % (i, j), ("equal", i, j)) for i in range(n) for j in range(n)]


GROUPS = [((0, 0, 1), {}), ((2, 1, 2), {1: 2., 2: .5}), ((0, 1, 2), {0: .3}), ((5, 5, 3, 3), {3: 1.}), ((1, 0, 1, 0), {0: .7, 1: 1.5})]


def weight(name, args):
    return 20 if args[0] != "point" else len(args[4]) ** prox.find(*args[1:4]).size / 50. * (20 if "sparse_group" in name else 1)


def run(R, name, args, tier):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()["run_" + args[0]](R, *args[1:], tier=tier)


def pieces(case, atom):
    """the index sets over which the terms of the penalty run; None if it has no terms"""
    if not hasattr(atom, "terms"):
        return None
    if case.group in ("group", "sgl"):
        labels = np.asarray(atom.groups)
        return [labels == l for l in sorted(set(labels.tolist()))]
    if case.group == "weighted":
        return [np.arange(case.size) == i for i in range(case.size)]
    if case.group in ("sgb", "block"):
        return [(np.arange(case.shape[0]) == i)[:, None] * np.ones(case.shape[1], bool) for i in range(case.shape[0])]
    return None


def run_point(R, f, dim, cname, alphabet, tier):
    case = prox.find(f, dim, cname)
    key = case.name
    maxed = "dual" in case.name or "supnorm" in case.name or "linf" in case.name
    inside = None
    if "sparse_group_lasso" in case.name and case.prox:
        from regreg.atoms.sparse_group_lasso import inside_set as inside
    first = True
    tol = 3e-5 if "sparse_group" in case.name and "dual" in case.name else 1e-6
    for param in case.params:
        atom = case.make(param)
        parts = pieces(case, atom)
        R.state()
        for y in A.grid(alphabet, case.shape):
            info = dict(penalty=case.name, param=param, point=y)
            R.context = lambda: info
            if parts is not None and first:
                want = np.array([case.pair.g(np.where(p, y, 0.)) for p in parts])
                with R.guard(key + ":terms", info):
                    t = np.asarray(atom.terms(y.copy()))
                    ok = np.isfinite(want)
                    R.check(t.shape == want.shape and np.allclose(t[ok], want[ok], tol, tol), key + ":terms", lambda: "terms %r, should be %r" % (t, want), info)
                    if ok.all():
                        s, w = (t.max() if maxed else t.sum()), case.pair.g(y)
                        R.check(abs(s - w) <= tol * max(1, w), key + ":combined", lambda: "terms combine to %r, the penalty is %r" % (s, w), info)
                        v = atom.seminorm(y.copy(), lagrange=1.)
                        R.check(abs(s - v) <= tol * max(1, w), key + ":seminorm", lambda: "terms combine to %r, the seminorm is %r" % (s, v), info)
                    if "check_feasibility" in atom.terms.__code__.co_varnames:
                        t = np.asarray(atom.terms(y.copy(), check_feasibility=True))
                        R.check(np.allclose(t, want, tol, tol), key + ":feasibility", lambda: "terms %r, should be %r" % (t, want), info)
                        t = np.asarray(atom.terms(y.tolist(), check_feasibility=False))
                        R.check(np.allclose(t[ok], want[ok], tol, tol), key + ":nofeasibility", lambda: "finite terms %r, should be %r" % (t, want), info)
                    R.trans()
                R.outcome("terms")
            if inside is not None:
                # the primal asks for its dual ball; the dual form is the indicator of its own ball
                g, r = (case.pair.gauge(y), 1.) if case.kind == "lagrange" else (case.pair.g(y), param)
                if case.kind == "lagrange" and not first:
                    pass
                elif abs(g - r) > 1e-4 * max(1, abs(r)) and not (case.kind == "bound" and param == 0):
                    with R.guard(key + ":inside", info):
                        got = inside(atom, y.copy())
                        R.trans()
                        R.check(bool(got) == bool(g < r), key + ":inside", lambda: "inside is %r, the gauge is %r and the radius %r" % (got, g, r), info)
                        R.outcome("inside")
            if case.prox and hasattr(atom, "check_subgradient") and case.kind in ("lagrange", "bound", "cone") and param != 0:
                with R.guard(key + ":certificate", info):
                    p = y.copy()
                    before = repr(atom)
                    v = atom.check_subgradient(atom, p)
                    u = atom.proximal(prox.make_quad((1., y.copy(), None, None)))
                    r = y - u
                    want = (r * u).sum() / (1. if case.kind == "cone" else param)
                    R.trans()
                    R.check(len(v) == 2 and abs(v[0] - want) <= 1e-6 * ref.scale(y), key + ":certificate", lambda: "first value %r, should be %r" % (v, want), info)
                    w = 0. if case.kind == "cone" else case.pair.g(u) if case.kind == "lagrange" else case.pair.gauge(r)
                    R.check(abs(v[1] - w) <= 2e-5 * ref.scale(y) and abs(v[0] - v[1]) <= 2e-5 * ref.scale(y), key + ":agree", lambda: "values %r, should both be %r" % (v, w), info)
                    R.check(np.array_equal(p, y) and repr(atom) == before, key + ":changes", "the certificate changed its arguments", info)
                    R.outcome("certificate:%s" % case.kind)
        if first:
            pts = list(A.grid(alphabet, case.shape))
            calls = []
            if parts is not None:
                calls += [("terms", "y", lambda a, y: a.terms(y)), ("seminorm", "y", lambda a, y: a.seminorm(y, lagrange=1.))]
            if case.prox and hasattr(atom, "check_subgradient") and case.kind in ("lagrange", "bound", "cone") and param != 0:
                calls.append(("certificate", "y", lambda a, y: a.check_subgradient(a, y)))
            buffers.explore(R, key + ":calls", lambda: case.make(param), calls, dict(y=[pts[-1], pts[len(pts) // 3]]), dict(penalty=case.name, param=param), depth=2, fresh="sparse_group" not in case.name)
        R.trace()
        first = False
        R.sample(dict(penalty=case.name, param=param))


def run_group(R, i, tier):
    """screening and optimality of group penalties"""
    from regreg.atoms.group_lasso import group_lasso, strong_set, check_KKT
    labels, w = GROUPS[i]
    labels = np.array(labels)
    ids = sorted(set(labels.tolist()))
    full = dict((l, w.get(l, np.sqrt((labels == l).sum()))) for l in ids)
    n = len(labels)
    grid = A.grid((-2., -.5, 0., 1., 2.5) if n < 4 else (-2., 0., 1.5), (n,))
    for lam in (.4, 1., 2.):
        atom = group_lasso(labels.copy(), lagrange=lam, weights=dict(w))
        R.state()
        for y in grid:
            info = dict(groups=labels, weights=full, lagrange=lam, point=y)
            R.context = lambda: info
            norms = np.array([np.linalg.norm(y[labels == l]) / full[l] for l in ids])
            for cur, new, slope in itertools.product((2., 1.), (1.5, 1., .8, .3), (1, 2.)):
                if new > cur:
                    continue
                cut = (slope + 1) * new - slope * cur
                with R.guard("strong", info):
                    got = list(strong_set(atom, cur, new, y.copy(), slope_estimate=slope))
                    R.trans()
                    # a tie is decided where all numbers are exact: one coordinate, weights and values that are multiples of 1/4
                    exact = [(labels == l).sum() == 1 and all(4 * t == int(4 * t) for t in (full[l], v, cut, cur, new)) for l, v in zip(ids, norms)]
                    bad = [l for l, v, e in zip(ids, norms, exact) if (abs(v - cut) > 1e-9 or e) and (l in got) != (v >= cut)]
                    R.outcome("tie", int(sum(bool(e and v == cut) for v, e in zip(norms, exact))))
                    R.check(not bad and sorted(got) == got, "strong", lambda: "strong set %r at threshold %r, dual norms %r" % (got, cut, norms), info)
                    R.outcome("strong")
            # exact solution of min |u-y|^2/2 + lam * norm, its gradient u - y
            u = np.zeros(n)
            for l in ids:
                g = labels == l
                s = np.linalg.norm(y[g])
                u[g] = y[g] * max(0., 1 - lam * full[l] / s) if s > 0 else 0.
            act = [np.linalg.norm(u[labels == l]) for l in ids]
            if min([a for a in act if a > 0] or [1.]) < .2:
                continue
            with R.guard("kkt", info):
                bad = check_KKT(atom, u - y, u.copy(), lam)
                R.trans()
                R.check(not bad, "kkt:solution", lambda: "the solution %r is said to fail" % (u,), info)
                R.outcome("kkt")
                for l in ids:
                    g = labels == l
                    grad = u - y
                    for kind in ("large", "small", "turn"):
                        d = grad.copy()
                        if kind == "large":
                            d[g] += 1.3 * lam * full[l] + np.abs(d[g])
                        elif kind == "small":
                            if not np.any(u[g]):
                                continue
                            d[g] *= .7
                        else:
                            if not np.any(u[g]) or g.sum() < 2:
                                continue
                            d[g] = np.linalg.norm(d[g]) * np.roll(np.abs(d[g]) + .5, 1) / np.linalg.norm(np.abs(d[g]) + .5)
                            if np.linalg.norm(d[g] - grad[g]) < .2 * np.linalg.norm(grad[g]):
                                continue
                        if not check_KKT(atom, d, u.copy(), lam):
                            R.fail("kkt:%s" % kind, "the gradient %r of group %r is accepted at %r" % (d, l, u), info)
                        R.trans()
                        R.outcome("kkt:%s" % kind)
            R.trace()


def run_equal(R, i, j, tier):
    """penalties are equal exactly when they are the same penalty with the same parameter"""
    def objs(k):
        f, d = compared(tier)[k]
        return [(c, p, c.make(p)) for c in getattr(A, f)(d) for p in c.params]
    left, right = objs(i), objs(j)
    for a, (c, p, o) in enumerate(left):
        R.state()
        info = dict(penalty=c.name, param=p)
        with R.guard("%s:equal" % c.name, info):
            if i == j:
                R.check((o == copy.copy(o)) is not False and bool(o == copy.copy(o)) and not (o != copy.copy(o)), "%s:copy" % c.name, "differs from its copy", info)
                if c.conj:
                    R.check(bool(o == o.conjugate.conjugate), "%s:conjugate" % c.name, "differs from the conjugate of its conjugate", info)
            for b, (d, q, r) in enumerate(right):
                same = c.name == d.name and (p == q)
                R.trans()
                got = bool(o == r)
                if got != same or bool(o != r) == got:
                    R.fail("%s:equal" % c.name, "comparison with %s (%r) is %r" % (d.name, q, got), info)
            R.check(not o == 3 and o != "x" and not o == None, "%s:foreign" % c.name, "equals a number or a string", info)
        R.trace()
    R.outcome("equal")
    R.sample(dict(left=compared(tier)[i], right=compared(tier)[j]))
