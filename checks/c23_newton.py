"""Proximal quasi-Newton solver: every run ends at the minimiser of exactly the configured objective, every update is the BFGS update."""
import importlib
import itertools
import warnings
import numpy as np
from mc import ref, prox
from mc.prox import vec, make_quad

S = importlib.import_module("checks.c17_simple")
PROPERTY = "C23"
LEVEL = "model_checking"
RULE = ("every (loss, penalty, parameter, combination of quadratics, initial Hessian, start) and every sequence of operations up to the depth on one solver "
        "is run on the real code; each returned point is decided by the optimality certificate of the total objective, each Hessian update by replaying the "
        "update from the iterates and gradients, each line search by the objective it reports")
ASSUMPTIONS = ["strongly convex losses so that the minimiser is unique", "three decimals of agreement are demanded from the iterative solver (1e-3 in the optimality certificate)",
               "penalties and losses carry no offset of their own in histories"]
BOUNDS = {"quick": "8 losses, all vector penalties of 2-3 coordinates, a fixed quarter (of the smaller ones a half, of the duals a seventh) of their parameters with 4 combinations of quadratics and 3 initial Hessians; histories of depth 3 over 7 operations for 5 problems",
          "thorough": "everything with 9 combinations of quadratics, histories of depth 4"}
TOL = 1e-3
FIT = dict(niter=100, tol=1e-9, min_its=5)


def penalties(tier):
    return [p for p in S.penalties(tier) if np.isscalar(p[1])]


def units(tier):
    us = [("solve/%s" % p[2], ("solve",) + p) for p in penalties(tier)]
    us += [("history/%s/%s" % (l, p[2]), ("history", l) + p) for l, p in S.history_problems(tier) if np.isscalar(p[1])]
    return us


def weight(name, args):
    return 30 if args[0] == "history" else 3


def hessians(n):
    return [("identity", np.identity(n)), ("zero diagonal start", .1 * np.identity(n)), ("full", np.array([[2., .5, 0.], [.5, 1., .3], [0., .3, 1.5]])[:n, :n])]


def quads(shape, tier):
    q = S.quads(shape, "thorough")
    return [(q[k][0], q[k][1], q[k][2], q[k][3]) for k in ((0, 1, 2, 3) if tier == "quick" else range(9))]


def undamped():
    from regreg.problems.newton import quasi_newton

    class undamped(quasi_newton):
        damping_term = 0
    return undamped


def run(R, name, args, tier):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()["run_" + args[0]](R, *args[1:], tier=tier)


def watch(R, key, info, qn):
    """checks every Hessian update and every line search of this solver"""
    update, search = qn.update_hessian, qn.backtrack

    def update_hessian(a, b, c, d):
        H = qn.hessian.copy()
        s, y = b - a, d - c
        update(a, b, c, d)
        R.trans()
        want = H + np.outer(y, y) / y.dot(s) - np.outer(H.dot(s), H.dot(s)) / s.dot(H.dot(s)) if y.dot(s) > 0 else H
        R.check(np.allclose(qn.hessian, want, rtol=1e-7, atol=1e-7 * max(1., np.abs(want).max())), key + ":update", lambda: "the updated Hessian is %s, should be %s" % (qn.hessian, want), info)
        R.check(qn.quadratic_loss.Q is qn.hessian or np.array_equal(qn.quadratic_loss.Q, qn.hessian), key + ":update", "the inner problem does not use the updated Hessian", info)
        R.outcome("updated" if y.dot(s) > 0 else "no curvature")

    def backtrack(direction, **kw):
        step, val = search(direction, **kw)
        x = qn.coefs + step * direction
        want = qn.smooth_atom.smooth_objective(x, "func") + qn.nonsmooth_objective(x, check_feasibility=True)
        R.trans()
        same = val == want or abs(val - want) <= 1e-9 * max(1, abs(want)) or val >= 1e15
        start = qn.smooth_atom.smooth_objective(qn.coefs, "func") + qn.nonsmooth_objective(qn.coefs, check_feasibility=True)
        R.check(val <= start + 1e-9 * max(1, abs(start)), key + ":search", lambda: "the line search goes from %r up to %r" % (start, val), info)
        R.check(same, key + ":search", lambda: "the line search reports %r, the objective is %r" % (val, want), info)
        return step, val
    qn.update_hessian, qn.backtrack = update_hessian, backtrack


def run_solve(R, fac, dim, cname, tier):
    from regreg.problems.newton import quasi_newton
    case = prox.find(fac, dim, cname)
    key = "newton:%s" % case.name
    n, j = case.shape[0], sum(map(ord, cname))
    for ls in S.select(S.losses(case.shape), case, tier):
        for param, (lq, off, own, pq), (hname, H) in itertools.product(case.params, quads(case.shape, tier), hessians(n)):
            info = dict(loss=ls.name, penalty=case.name, param=param, loss_quadratic=lq, offset=off, penalty_quadratic=own, problem_quadratic=pq, hessian=hname)
            j += 1
            if tier == "quick" and j % (2 if case.shape == (2,) else 7 if "dual" in case.name else 4):
                continue
            R.state()
            R.context = lambda: info
            with R.guard(key, info):
                k = {} if lq is None else dict(quadratic=make_quad(lq))
                loss = ls.build(**k)
                pen = S.penalty(case, param, off, own)
                H0 = H.copy()
                qn = (quasi_newton if j % 3 else undamped())(loss, pen, H0, quadratic=None if pq is None else make_quad(pq))
                watch(R, key, info, qn)
                before = repr(loss.quadratic), repr(pen.quadratic), repr(qn.quadratic), repr(pen.offset)
                x = qn.solve(**FIT)
                y = np.array(x, float)
                bad = S.certificate(case, param, off, own, [lq, pq], ls.grad, y, TOL)
                R.trace()
                R.outcome("%s:%s" % (case.kind, "zero" if not np.any(y if off is None else y - off) else "nonzero"))
                R.check(not bad, key, lambda: "solve: %s" % bad, lambda: dict(info, result=y))
                R.check((repr(loss.quadratic), repr(pen.quadratic), repr(qn.quadratic), repr(pen.offset)) == before, key + ":changes",
                        "solve changed the quadratics of the problem or of its parts", info)
                R.check(np.array_equal(H0, H), key + ":changes", "the initial Hessian of the caller was changed", info)
                want = ls.val(y) + sum(ref.q_value(s, y) for s in (lq, own, pq) if s is not None)
                pv = case.val(param, y if off is None else y - off, 1e-6)
                if np.isfinite(pv):
                    got = qn.objective(y)
                    R.check(not np.isfinite(got) or abs(got - want - pv) <= 1e-7 * max(1, abs(want)), key + ":objective", lambda: "objective %r, definition %r" % (got, want + pv), lambda: dict(info, result=y))
                again = np.array(qn.solve(**FIT), float)
                bad = S.certificate(case, param, off, own, [lq, pq], ls.grad, again, TOL)
                R.check(not bad, key + ":again", lambda: "second solve: %s" % bad, lambda: dict(info, result=again))
                R.sample(info)


OPS = ("solve", "one step", "scribble", "problem-quadratic", "parameter", "loss-quadratic", "start")


def run_history(R, lname, fac, dim, cname, tier):
    from regreg.problems.newton import quasi_newton
    case = prox.find(fac, dim, cname)
    ls = [l for l in S.losses(case.shape) if l.name == lname][0]
    key = "history:%s" % case.name
    mu = (.5, vec((.5, 1.), case.shape), None, 0)
    params = [p for p in case.params if p]
    ops = [o for o in OPS if not (o == "parameter" and case.kind not in ("lagrange", "bound"))]
    for n in range(1, (3 if tier == "quick" else 4) + 1):
        for seq in itertools.product(ops, repeat=n):
            if seq[-1] != "solve":
                continue
            info = dict(loss=ls.name, penalty=case.name, operations=list(seq))
            R.context = lambda: info
            with R.guard(key, info):
                st = dict(param=params[0] if params else None, lq=None, pq=None)
                loss, pen = ls.build(), case.make(st["param"])
                qn = quasi_newton(loss, pen, np.identity(case.shape[0]))
                watch(R, key, info, qn)
                for op in seq:
                    if op == "solve":
                        x = qn.solve(**FIT)
                    elif op == "one step":
                        x = qn.solve(niter=1, tol=1e-10)
                    elif op == "scribble":
                        y = qn.solve(niter=2, tol=1e-10)
                        y += 2.
                    elif op == "problem-quadratic":
                        st["pq"] = mu
                        qn.quadratic = make_quad(mu)
                    elif op == "loss-quadratic":
                        st["lq"] = mu
                        loss.quadratic = make_quad(mu)
                    elif op == "parameter":
                        st["param"] = params[(params.index(st["param"]) + 1) % len(params)]
                        setattr(pen, "lagrange" if case.kind == "lagrange" else "bound", st["param"])
                    elif op == "start":
                        qn.coefs[:] = vec((3., -2., 5.), case.shape)
                bad = S.certificate(case, st["param"], None, None, [st["lq"], st["pq"]], ls.grad, x, TOL)
                R.check(not bad, key, lambda: "last solve: %s" % bad, lambda: dict(info, state=st, result=x))
                R.trace()
                R.state()
