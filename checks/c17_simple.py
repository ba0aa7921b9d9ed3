"""Smooth loss plus one penalty: every solve returns a minimiser of exactly the configured objective, whatever happened before."""
import itertools
import warnings
import numpy as np
from mc import atoms as A, ref, prox, losses as L
from mc.prox import vec, make_quad

PROPERTY = "C17"
LEVEL = "model_checking"
RULE = ("every (loss, penalty, parameter, combination of quadratics and offsets), every combination of solver options and every sequence of "
        "operations up to the depth on one problem is run on the real solver; each returned point is decided by the optimality certificate of "
        "the total objective, the accelerated method itself by replaying its recursion for every iteration count up to the bound")
ASSUMPTIONS = ["strongly convex losses so that the minimiser is unique; solver tolerance 1e-14", "three decimals of agreement are demanded from the iterative solver (2e-4 in the optimality certificate)"]
BOUNDS = {"quick": "9 losses, all vector penalties of 2-3 coordinates and matrix penalties 2x2, 6 combinations of quadratics; histories of depth 3 over 12 operations for 10 problems; 7 iterations",
          "thorough": "12 combinations of quadratics, histories of depth 4, 12 iterations"}

X2 = np.array([[1., 2.], [-1., .5], [0., 1.], [1.5, -1.]])
X3 = np.array([[1., 2., 0.], [-1., .5, 1.], [0., 1., -1.], [1.5, -1., .5], [.5, 0., 1.]])
RES = {"gaussian": lambda n: (np.resize([1., -2., .5, 3.], n),), "logistic": lambda n: (np.resize([1., 2., 1., 1., 3.], n), np.resize([2., 3., 3., 2., 4.], n)),
       "poisson": lambda n: (np.resize([1., 2., 4., 3.], n),), "huber": lambda n: (np.resize([1., -2., .5, 3.], n), .5)}
TOL = 2e-4


def design(p):
    return {1: X2[:, :1], 2: X2, 3: X3}[p]


class Loss(object):
    """build() -> fresh smooth atom; grad(x), val(x) of the same function, without its quadratic"""

    def __init__(self, name, build, val, grad):
        self.name, self.build, self.val, self.grad = name, build, val, grad


def losses(shape):
    """strongly convex losses on arrays of this shape"""
    from regreg.smooth import quadratic as SQ, affine_smooth, sum as ssum
    from regreg.smooth.glm import glm
    n = int(np.prod(shape))
    z = vec((1.5, -2., .7, .3), shape)
    out = [Loss("signal", lambda **k: _with(SQ.signal_approximator(z.copy()), **k), lambda x: ((x - z) ** 2).sum() / 2., lambda x: x - z)]
    a = .25 * np.ones(shape)
    out.append(Loss("scaled", lambda **k: SQ.quadratic_loss(shape if len(shape) > 1 else shape[0], coef=2.5, offset=z + a, **k),
                    lambda x: 2.5 * ((x - z - a) ** 2).sum() / 2., lambda x: 2.5 * (x - z - a)))
    if len(shape) > 1 or n > 3:
        return out
    X = design(n)
    m = X.shape[0]
    Q = np.array([[2., .5, 0.], [.5, 1., .3], [0., .3, 1.5]])[:n, :n]
    out.append(Loss("matrix", lambda **k: SQ.quadratic_loss(n, Q=Q.copy(), offset=z.copy(), **k), lambda x: (x - z).dot(Q).dot(x - z) / 2., lambda x: Q.dot(x - z)))
    fams = dict((f.name, f) for f in L.families())
    for fam in ("gaussian", "logistic", "poisson", "huber"):
        f, r = fams[fam], RES[fam](m)
        out.append(Loss("glm-" + fam, lambda f=f, r=r, **k: f.glm(X.copy(), r, **k), lambda x, f=f, r=r: f.f(X.dot(x), r).sum(), lambda x, f=f, r=r: X.T.dot(f.g(X.dot(x), r))))
    g, lo = out[3], out[4]
    y = RES["gaussian"](m)[0]
    out.append(Loss("affine", lambda **k: _with(SQ.quadratic_loss.affine(X.copy(), -y), **k),
                    g.val, g.grad))
    out.append(Loss("sum", lambda **k: _with(ssum([g.build(), lo.build()], [2., .5]), **k), lambda x: 2 * g.val(x) + .5 * lo.val(x), lambda x: 2 * g.grad(x) + .5 * lo.grad(x)))
    return out


def _with(s, quadratic=None):
    if quadratic is not None:
        s.quadratic = quadratic
    return s


def penalties(tier):
    out = []
    for f, d in [("basic", 2), ("structured", 3), ("matrix", (2, 2))] + ([("basic", 3)] if tier == "thorough" else []):
        for c in getattr(A, f)(d):
            if c.prox:
                out.append((f, d, c.name))
    return out


def units(tier):
    us = [("solve/%s%s/%s" % (p[0], p[1], p[2]), ("solve",) + p) for p in penalties(tier)]
    us += [("history/%s/%s" % (l, p[2]), ("history", l) + p) for l, p in history_problems(tier)]
    us += [("solver/%s" % (p[2],), ("solver", l) + p) for l, p in history_problems(tier)]
    us += [("options/%s/%s" % (n, k), ("options", n, k)) for n in (("signal", "matrix", "glm-logistic", "affine") if tier == "thorough" else ("matrix", "glm-logistic")) for k in range(4)]
    us += [("replay/%s/%s" % (f, n), ("replay", f, n)) for f in ("momentum", "plain") for n in ("matrix", "glm-logistic")]
    us += [("gengrad/%s/%s" % (l, q), ("gengrad", l, q)) for l in ("signal", "matrix", "glm-logistic") for q in (0, 1)]
    return us


def weight(name, args):
    return {"history": 30, "solver": 15, "solve": 3}.get(args[0], 4)


def history_problems(tier):
    want = {"l1norm(2).lagrange": "glm-logistic", "l1norm(2).bound": "matrix", "group_lasso": "glm-gaussian", "nonnegative": "glm-logistic", "sparse_group_lasso": "matrix"}
    out = []
    seen = set()
    for f, d, name in penalties(tier):
        for pre, l in want.items():
            if name.startswith(pre) and (pre, f) not in seen and d in (2, 3):
                seen.add((pre, f))
                out.append((l, (f, d, name)))
    return out


def quads(shape, tier):
    """(loss quadratic, penalty offset, penalty quadratic, problem quadratic, quadratic given to solve)"""
    lin = (0, None, vec((1., 0., -.5), shape), 1.)
    full = (.7, vec((1., -1.), shape), vec((0., .5, 1.), shape), 2.)
    mu = (.5, vec((.5, 1.), shape), None, 0)
    off = vec((.5, -1., 2.), shape)
    out = [(None, None, None, None, None), (lin, None, None, mu, full), (full, off, None, None, lin), (None, off, lin, full, None), (mu, None, full, None, mu),
           (full, off, lin, lin, full)]
    if tier == "thorough":
        out += [(None, None, None, None, full), (None, None, None, full, None), (full, None, None, None, None), (mu, off, full, full, lin), (None, off, None, mu, mu), (lin, None, lin, lin, lin)]
    return out


def run(R, name, args, tier):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()["run_" + args[0]](R, *args[1:], tier=tier)


def certificate(case, param, off, own, specs, gradient, x, tol=TOL):
    x = np.asarray(x, float)
    if x.shape != case.shape or not np.all(np.isfinite(x)):
        return "returned %r" % (x,)
    v = -gradient(x)
    for s in list(specs) + [own]:
        if s is not None:
            v = v - ref.q_grad(s, x)
    y = x if off is None else x - off
    bad = case.ok(param, y, v, tol)
    if bad:                                     # a multiplier that should vanish is only small after an iterative solve
        bad = case.ok(param, y, np.where(np.abs(v) < tol, 0., v), tol)
    return bad


def penalty(case, param, off, own):
    kw = {}
    if off is not None:
        kw["offset"] = off.copy()
    if own is not None:
        kw["quadratic"] = make_quad(own)
    return case.make(param, **kw)


FIT = dict(tol=1e-14, min_its=40, max_its=4000)


def select(ls, case, tier):
    if tier == "thorough" or case.name in ("l1norm(2).lagrange", "l1norm(2).bound", "nonnegative(2)", "group_lasso[001;].lagrange") or len(ls) <= 3:
        return ls
    k = sum(map(ord, case.name)) % 3                # three losses per penalty, spread over the penalties
    return ls[k::3]


def run_solve(R, fac, dim, cname, tier):
    from regreg.problems.simple import simple_problem
    case = prox.find(fac, dim, cname)
    key = "solve:%s" % case.name
    for ls in select(losses(case.shape), case, tier):
        for param in case.params:
            for lq, off, own, pq, sq in quads(case.shape, tier):
                info = dict(loss=ls.name, penalty=case.name, param=param, loss_quadratic=lq, offset=off, penalty_quadratic=own, problem_quadratic=pq, solve_quadratic=sq)
                R.trans()
                R.context = lambda: info
                with R.guard(key, info):
                    k = {} if lq is None else dict(quadratic=make_quad(lq))
                    loss = ls.build(**k)
                    pen = penalty(case, param, off, own)
                    pb = simple_problem(loss, pen)
                    if pq is not None:
                        pb.quadratic = make_quad(pq)
                    before = repr(loss.quadratic), repr(pen.quadratic), repr(pb.quadratic), repr(pen.offset)
                    a = (make_quad(sq),) if sq is not None else ()
                    val, x = pb.solve(*a, return_optimum=True, **FIT)
                    bad = certificate(case, param, off, own, [lq, pq, sq], ls.grad, x)
                    R.trace()
                    R.outcome("%s:%s" % (case.kind, "zero" if not np.any(np.asarray(x if off is None else x - off)) else "nonzero"))
                    R.check(not bad, key, lambda: "solve: %s" % bad, lambda: dict(info, result=x))
                    R.check((repr(loss.quadratic), repr(pen.quadratic), repr(pb.quadratic), repr(pen.offset)) == before, "solve:restores",
                            "solve changed the quadratics of the problem or of its parts", info)
                    y = np.asarray(x, float)
                    want = ls.val(y) + sum(ref.q_value(s, y) for s in (lq, own, pq, sq) if s is not None)
                    pv = case.val(param, y if off is None else y - off, 1e-6)
                    R.check(abs(val - want - (pv if np.isfinite(pv) else 0.)) <= 1e-6 * max(1, abs(want)), key + ":optimum",
                            lambda: "optimal value %r, objective at the solution %r" % (val, want + pv), lambda: dict(info, result=x))
                    total = pb.objective(y)
                    inner = want - (ref.q_value(sq, y) if sq is not None else 0.) + (pv if np.isfinite(pv) else 0.)
                    R.check(abs(total - inner) <= 1e-6 * max(1, abs(inner)), key + ":objective",
                            lambda: "objective %r, definition %r" % (total, inner), lambda: dict(info, result=x))
                    R.sample(info)
        R.state(len(case.params))


# ---- histories ---------------------------------------------------------------------------------
OPS = ("solve", "solve-q", "solve-optimum", "solve-nan", "problem-quadratic", "no-quadratic", "parameter", "start", "scribble", "scale", "loss-quadratic", "other-problem")
SOLVES = ("solve", "solve-q", "solve-optimum", "other-problem")


def run_history(R, lname, fac, dim, cname, tier):
    from regreg.problems.simple import simple_problem
    case = prox.find(fac, dim, cname)
    ls = [l for l in losses(case.shape) if l.name == lname][0]
    other = losses(case.shape)[0]
    depth = 3 if tier == "quick" else 4
    key = "history:%s" % case.name
    qs = [(.7, vec((1., -1.), case.shape), vec((0., .5, 1.), case.shape), 2.), (.5, vec((.5, 1.), case.shape), None, 0)]
    ops = [o for o in OPS if not (o == "parameter" and case.kind not in ("lagrange", "bound"))]
    params = [p for p in case.params if p]
    for n in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=n):
            if seq[-1] not in SOLVES:
                continue
            info = dict(loss=ls.name, penalty=case.name, operations=list(seq))
            R.context = lambda: info
            R.trans(len(seq))
            with R.guard(key, info):
                play(R, key, info, seq, case, ls, other, qs, params, simple_problem)
            R.trace()
            R.state()


def play(R, key, info, seq, case, ls, other, qs, params, simple_problem):
    st = dict(param=params[0] if params else None, coef=1., lq=None, pq=None)
    loss, pen = ls.build(), case.make(st["param"])
    pb = simple_problem(loss, pen)
    for i, op in enumerate(seq):
        last = i == len(seq) - 1
        fit = FIT if last else dict(tol=1e-10, min_its=5)
        x, sq, L_, extra = None, None, ls, [st["lq"], st["pq"]]
        if op == "solve":
            x = pb.solve(**fit)
        elif op == "solve-q":
            sq = qs[0]
            x = pb.solve(make_quad(sq), **fit)
        elif op == "solve-optimum":
            v, x = pb.solve(return_optimum=True, **fit)
        elif op == "solve-nan":
            try:
                pb.solve(make_quad((1., np.full(case.shape, np.nan), None, 0)), **fit)
            except ValueError:
                pass
        elif op == "problem-quadratic":
            st["pq"] = qs[1]
            pb.quadratic = make_quad(qs[1])
        elif op == "no-quadratic":
            st["pq"] = None
            pb.quadratic = make_quad((0, 0, 0, 0))
        elif op == "parameter":
            st["param"] = params[(params.index(st["param"]) + 1) % len(params)]
            setattr(pen, "lagrange" if case.kind == "lagrange" else "bound", st["param"])
        elif op == "start":
            pb.coefs[:] = vec((3., -2., 5.), case.shape)
        elif op == "scribble":
            y = pb.solve(**fit)
            y += 2.
        elif op == "scale":
            st["coef"] = 3. - st["coef"]
            loss.coef = st["coef"]
        elif op == "loss-quadratic":
            st["lq"] = qs[1]
            loss.quadratic = make_quad(qs[1])
        elif op == "other-problem":
            pb2 = simple_problem(other.build(), pen)
            L_, extra = other, []
            x = pb2.solve(**fit)
        if last:
            c = st["coef"] if L_ is ls else 1.
            bad = certificate(case, st["param"], None, None, extra + [sq], lambda z: c * L_.grad(z), x)
            R.outcome("%s after %d operations" % (op, i))
            R.check(not bad, key, lambda: "last solve: %s" % bad, lambda: dict(info, state=st, result=x))


# ---- one solver object -------------------------------------------------------------------------
STEPS = ("fit", "fixed", "plain", "scale", "parameter", "problem-quadratic", "penalty-quadratic", "start", "small-step")


def run_solver(R, lname, fac, dim, cname, tier):
    """fits of one solver object, the problem being changed between them: each fit ends at the minimiser of the problem as it is then"""
    from regreg.problems.simple import simple_problem
    from regreg.algorithms import FISTA
    case = prox.find(fac, dim, cname)
    ls = [l for l in losses(case.shape) if l.name == lname][0]
    q = (.7, vec((1., -1.), case.shape), vec((0., .5, 1.), case.shape), 2.)
    lin = (0, None, vec((1., 0., -.5), case.shape), 1.)
    params = [p for p in case.params if p]
    for n in range(1, 4 if tier == "quick" else 5):
        for seq in itertools.product(STEPS, repeat=n):
            if seq[-1] not in ("fit", "fixed", "plain") or "parameter" in seq and len(params) < 2 or n > 2 and seq[0] not in ("fit", "fixed", "plain", "small-step"):
                continue
            info = dict(loss=lname, penalty=case.name, operations=list(seq))
            R.context = lambda: info
            key = "solver:%s" % case.name
            with R.guard(key, info):
                st = dict(param=params[0] if params else None, coef=1., pq=None, own=None)
                loss, pen = ls.build(), case.make(st["param"])
                pb = simple_problem(loss, pen)
                alg = FISTA(pb)
                for op in seq:
                    R.trans()
                    if op == "scale":
                        st["coef"] = loss.coef = 7. - st["coef"]
                    elif op == "parameter":
                        st["param"] = params[(params.index(st["param"]) + 1) % len(params)]
                        setattr(pen, case.kind, st["param"])
                    elif op == "problem-quadratic":
                        st["pq"] = q
                        pb.quadratic = make_quad(q)
                    elif op == "penalty-quadratic":
                        st["own"] = lin
                        pen.quadratic = make_quad(lin)
                    elif op == "start":
                        pb.coefs[:] = vec((3., -2., 5.), case.shape)
                    elif op == "small-step":
                        alg.fit(tol=1e-10, max_its=3, start_step=1e-4)
                    else:
                        alg.perform_backtrack = op != "fixed"
                        pb.lipschitz = 20. * st["coef"]
                        alg.fit(FISTA=op != "plain", **FIT)
                        bad = certificate(case, st["param"], None, st["own"], [st["pq"]], lambda z: st["coef"] * ls.grad(z), pb.coefs, 2e-3)
                        R.trace()
                        R.check(not bad, key, lambda: "fit: %s" % bad, lambda: dict(info, state=st, result=pb.coefs))
                R.state()
    R.outcome("solver")


# ---- options -----------------------------------------------------------------------------------
def run_options(R, lname, which, tier):
    from regreg.problems.simple import simple_problem
    from regreg.algorithms import FISTA
    for fac, dim, cname, param in [("basic", 2, "l1norm(2).lagrange", .3), ("basic", 2, "l1norm(2).bound", .7), ("basic", 3, "nonnegative(3)", None), ("structured", 3, None, .3)][which:which + 1]:
        cs = [c for c in getattr(A, fac)(dim) if c.prox and (cname is None and c.kind == "lagrange" and c.name.startswith("group_lasso") or c.name == cname)]
        if not cs:
            cs = [c for c in getattr(A, fac)(dim) if c.prox and c.kind == "cone"]
        case = cs[0]
        ls = [l for l in losses(case.shape) if l.name == lname][0]
        for momentum, coef_stop, restart, mono, start, x0, bt in itertools.product((True, False), (False, True), (np.inf, 3), (True, False), (1e-2, 1., 50.), (0., 3.), (True, False)):
            if not bt and start != 1.:
                continue
            info = dict(loss=lname, penalty=case.name, FISTA=momentum, coef_stop=coef_stop, restart=restart, monotonicity_restart=mono, start_step=start, start=x0, backtrack=bt)
            key = "options:%s" % lname
            R.trans()
            R.state()
            with R.guard(key, info):
                pb = simple_problem(ls.build(), case.make(param))
                pb.coefs[:] = x0 * vec((1., -1.), case.shape)
                first = pb.objective(pb.coefs, check_feasibility=True)
                alg = FISTA(pb)
                alg.perform_backtrack = bt
                pb.lipschitz = 20.
                hist = alg.fit(tol=1e-13, min_its=30, max_its=4000, FISTA=momentum, coef_stop=coef_stop, restart=restart, monotonicity_restart=mono, start_step=start)
                bad = certificate(case, param, None, None, [], ls.grad, pb.coefs, 2e-3)
                R.trace()
                R.check(not bad, key, lambda: "fit: %s" % bad, lambda: dict(info, result=pb.coefs))
                R.check(len(hist) and (hist[0] == first or abs(hist[0] - first) <= 1e-9 * max(1, abs(first))), key + ":history",
                        lambda: "history starts at %r, the starting point has objective %r" % (hist[:1], first), info)
                if mono:
                    h = hist[np.isfinite(hist)]
                    R.check(np.all(np.diff(h) <= 1e-8 * np.maximum(1, np.abs(h[1:]))), key + ":monotone", "the objective history increases", lambda: dict(info, history=h))
                last = pb.objective(pb.coefs)
                R.check(last <= hist.min() + 1e-7 * max(1, abs(last)) or not mono, key + ":last", lambda: "final objective %r above the history %r" % (last, hist.min()), info)
                R.outcome("momentum" if momentum else "plain")


# ---- the recursion -----------------------------------------------------------------------------
def soft(x, t):
    return np.sign(x) * np.maximum(np.abs(x) - t, 0)


def run_replay(R, fam, lname, tier):
    """coefficients after every number of iterations, fixed step, against the published recursion"""
    from regreg.problems.simple import simple_problem
    from regreg.atoms.seminorms import l1norm
    from regreg.algorithms import FISTA
    N = 7 if tier == "quick" else 12
    momentum = fam == "momentum"
    ls = [l for l in losses((2,)) if l.name == lname][0]
    key = "replay:%s" % fam
    for lam, x0, lip, restart, k in itertools.product((0.2, 1.), ((0., 0.), (2., -1.), (-3., 4.)), (8., 20.), (np.inf, 2, 3, 4), range(1, N + 1)):
        info = dict(loss=lname, lagrange=lam, start=x0, lipschitz=lip, restart=restart, iterations=k, FISTA=momentum)
        R.trans(k)
        R.state()
        with R.guard(key, info):
            pb = simple_problem(ls.build(), l1norm(2, lagrange=lam))
            pb.coefs[:] = x0
            pb.lipschitz = lip
            alg = FISTA(pb)
            alg.perform_backtrack = False
            hist = alg.fit(tol=1e-300, min_its=k, max_its=k, FISTA=momentum, restart=restart, monotonicity_restart=False)
            x, w, work, hs = np.array(x0), 1., np.array(x0), []
            for i in range(k):
                hs.append(ls.val(x) + lam * np.abs(x).sum())
                if np.isfinite(restart) and (i + 1) % restart == 0:
                    work, w = x, 1.
                z = soft(work - ls.grad(work) / lip, lam / lip)
                w1 = .5 * (1 + np.sqrt(1 + 4 * w * w)) if momentum else 1.
                work = z + ((w - 1) / w1) * (z - x) if momentum else z
                x, w = z, w1
            R.trace()
            R.check(np.allclose(pb.coefs, x, rtol=1e-9, atol=1e-10), key, lambda: "after %d iterations %r, the recursion gives %r" % (k, pb.coefs.tolist(), x.tolist()), info)
            R.check(len(hist) == k and np.allclose(hist, hs, rtol=1e-9, atol=1e-10), key + ":history", lambda: "history %r, should be %r" % (hist.tolist(), hs), info)
            R.outcome(fam)


def run_gengrad(R, lname, withq, tier):
    from regreg.problems.simple import simple_problem, gengrad
    for fac, d in (("basic", 2), ("structured", 3)) if tier == "thorough" else (("basic", 2),):
        for case in getattr(A, fac)(d):
            if not case.prox:
                continue
            for ls in losses(case.shape):
                if ls.name != lname:
                    continue
                for param in case.params:
                    for stop, q in itertools.product((False, True), ((.5, vec((.5, 1.), case.shape), vec((1., 0.), case.shape), 0),) if withq else (None,)):
                        info = dict(loss=ls.name, penalty=case.name, param=param, coef_stop=stop, quadratic=q)
                        R.trans()
                        R.state()
                        with R.guard("gengrad", info):
                            pb = simple_problem(ls.build(), case.make(param))
                            if q is not None:
                                pb.quadratic = make_quad(q)
                            x = gengrad(pb, 8., tol=1e-13, coef_stop=stop)
                            bad = certificate(case, param, None, None, [q], ls.grad, x, 2e-3)
                            R.check(not bad, "gengrad", lambda: "generalised gradient: %s" % bad, lambda: dict(info, result=x))
                            R.trace()
                            R.outcome("gengrad")
