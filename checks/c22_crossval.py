"""Cross-validated paths: scores of held-out cases under models of the other cases, for every fold assignment and every schedule of the folds."""
import importlib
import itertools
import os
import sys
import threading
import warnings
import numpy as np
from checks import c20_paths as P

PROPERTY = "C22"
LEVEL = "model_checking"
RULE = ("every balanced assignment of the cases to folds is imposed on the shuffle and cross-validation is run on it; the model of every fold at "
        "every Lagrange value must satisfy the optimality conditions of the problem of its training cases alone, and the reported mean and "
        "spread must be those of the held-out scores recomputed from the data; folds are also run on controlled threads under every schedule "
        "up to the preemption bound, switching before every line of the path code")
ASSUMPTIONS = ["the thread schedules switch before source lines, not inside numpy or the compiled kernels", "losses and their subsamples are checked separately"]
BOUNDS = {"quick": "8 cases; all 35 assignments to 2 folds, 280 to 3 (every 24th problem all of the former and every 5th of the latter, the others every 14th and 70th); 2 threads, 1 preemption before any statement of the fold and fitter and any call of the path code",
          "thorough": "all assignments to 2, 3, 4 and 8 folds for every problem; 2 threads with 2 preemptions, 3 threads with 1 at every line of the path code, 2 threads with 1 at every function call of the package"}


def assignments(n, cv):
    """every assignment to cv folds with the sizes the module uses, up to the names of folds of equal size"""
    base = np.floor(np.arange(n) / n * cv).astype(int)
    sizes = [int((base == k).sum()) for k in range(cv)]
    out = []

    def rec(left, k, a):
        if k == cv:
            out.append(np.array(a))
            return
        for s in itertools.combinations(left, sizes[k]):
            if k and sizes[k] == sizes[k - 1] and s[0] < a.index(k - 1):
                continue
            b = list(a)
            for i in s:
                b[i] = k
            rec([i for i in left if i not in s], k + 1, b)
    rec(list(range(n)), 0, [-1] * n)
    return out


class Imposed(object):
    """while active, shuffles produce the given fold labels"""

    def __init__(self, labels):
        self.labels = np.asarray(labels)

    def __enter__(self):
        self.old = np.random.shuffle, np.random.permutation, np.random.standard_normal

        def order(x):
            # the arrangement of x (sorted labels) that gives the imposed folds
            x = np.asarray(x)
            pos = np.argsort(np.argsort(self.labels, kind="stable"), kind="stable")
            return np.sort(x, kind="stable")[pos]

        def shuffle(x):
            x[:] = order(np.array(x))

        def permutation(x):
            return order(np.arange(x) if np.isscalar(x) else np.array(x))
        # the start of the power method that guesses the step size
        np.random.shuffle, np.random.permutation = shuffle, permutation
        np.random.standard_normal = lambda size=None: np.random.RandomState(3).standard_normal(size)

    def __exit__(self, *a):
        np.random.shuffle, np.random.permutation, np.random.standard_normal = self.old


def score_sq(lp, y):
    return np.linalg.norm(lp - y) ** 2 / y.shape[0]


def score_odd(lp, y):
    """not symmetric in anything; depends on every entry"""
    w = np.arange(1, lp.size + 1).reshape(lp.shape)
    return float((w * np.tanh(lp)).sum() - 3 * (y[::-1] * (1 + np.arange(y.size).reshape(y.shape))).sum() + y.shape[0])


def score_cox(lp, y):
    return float((lp * y[:, 1] - np.exp(lp * .1) * y[:, 0]).mean())


def response(pr):
    """the responses as the score sees them"""
    if pr.kind == "block":
        y = {"gaussian": P.YG, "huber": P.YG, "poisson": P.YP}.get(pr.loss, P.YB)
        if pr.loss == "cox":
            return None
        return np.concatenate([y, y[::-1]])
    if pr.loss == "cox":
        return np.array([P.TT, P.SS]).T
    return {"multinomial": P.YC, "multiresponse": P.YM, "gaussian": P.YG, "huber": P.YG, "poisson": P.YP}.get(pr.loss, P.YB)


def linpred(pr, b):
    """for all cases"""
    if pr.kind == "block":
        return np.concatenate([pr.X().dot(b[:, 0]), pr.X()[:, ::-1].dot(b[:, 1])])
    return pr.dense().dot(b)


def state_of(path):
    s = path.saturated_loss
    d = s.data
    out = [np.array(path.solution), np.array(path.grad_solution), np.array(s.coef), np.array(path.alpha), np.array(path.elastic_net_param)]
    out += [np.array(x, float) for x in (d if isinstance(d, tuple) else (d,))]
    out.append(np.array([path.X.dot(e) for e in np.eye(int(np.prod(path.X.input_shape))).reshape((-1,) + tuple(path.X.input_shape))]))
    for a in ("case_weights",):
        w = getattr(s, a, None)
        out.append(np.zeros(0) if w is None else np.array(w))
    out.append(np.array(s.smooth_objective(np.ones(s.shape) * .3, "grad")))
    return out


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def mod():
    return importlib.import_module("regreg.paths.cross_validate")


def spread(pr, labels):
    """labels of the cases of the loss from labels of the 8 rows"""
    return np.concatenate([labels, labels[::-1]]) if pr.kind == "block" else labels


def crossval(R, key, pr, path, labels, cv, fitter, score, info, n_jobs=1, alt=False, given=False, props=(4, .2)):
    info = dict(pr.info, folds=repr(labels.tolist()), fitter=fitter, score=getattr(score, "__name__", None), n_jobs=n_jobs, **info)
    R.context = lambda: info
    with R.guard(key, info):
        from regreg import paths
        seq = P.sequence(path, *props)
        before, keep = state_of(path), seq.copy()
        lab = spread(pr, labels)
        y = response(pr)
        n = len(y)
        fits, subs = [], {}
        lock = threading.Lock()
        base = {"strong": paths.strong_rules, "warm": paths.warm_start}[fitter]

        def record(train_path, lagrange_seq, initial_data, **kw):
            if fitter == "warm":       # only compares objectives otherwise
                kw = dict(kw, inner_tol=kw["inner_tol"] * 1e-3, solve_args={"min_its": 40})
            out = base(train_path, lagrange_seq, initial_data, **kw)
            with lock:
                fits.append((train_path, out))
            return out
        inner = path.subsample

        def subsample(idx):
            p = inner(idx)
            m = np.zeros(n, bool)
            m[idx] = True
            with lock:
                subs[id(p)] = (m, p)
            return p
        path.subsample = subsample
        kw = dict(cv=cv, n_jobs=n_jobs, verbose=False, path_fitter=record)
        if score is not None:
            kw["score"] = score
        init = (path.solution.copy(), path.grad_solution.copy())
        init0 = [x.copy() for x in init]
        if given:
            kw["initial_data"] = init
        try:
            with Imposed(lab):
                if alt:
                    def fit_fold(lagrange_seq, test, train, path_fitter, initial_data, scale, tol):
                        p = path.subsample(train)
                        if scale:
                            p.saturated_loss.coef *= train.shape[0] / train.sum()
                        return path_fitter(p, lagrange_seq, initial_data, inner_tol=tol)
                    mean, std = mod().cross_validate_alt(path, fit_fold, (True, 1e-9), seq, **kw)
                else:
                    mean, std = mod().cross_validate(path, seq, inner_tol=1e-9, **kw)
        finally:
            del path.subsample
        R.trace()
        R.trans(len(fits))
        R.check(same(before, state_of(path)), key + ":path", "the path object was changed", info)
        R.check(np.array_equal(seq, keep), key + ":sequence", "the Lagrange sequence was changed", info)
        R.check(all(np.array_equal(a, b) for a, b in zip(init, init0)), key + ":initial", "the initial data were changed", info)
        masks = [subs[id(p)][0] for p, _ in fits if id(p) in subs]
        held = [~m for m in masks]
        want = sorted((lab == k).tolist() for k in range(cv))
        if not R.check(sorted(h.tolist() for h in held) == want, key + ":folds",
                       lambda: "held out %s" % [np.nonzero(h)[0].tolist() for h in held], info):
            return None
        scores = []
        for m, (p, out) in zip(masks, fits):
            betas = [np.asarray(b).T for b in out["beta"]]
            if not R.check(len(betas) == len(seq), key + ":length", "a fold has %d models for %d Lagrange values" % (len(betas), len(seq)), info):
                return None
            idx = np.nonzero(m)[0]
            f = score_sq if score is None else score
            scores.append([f(linpred(pr, b)[~m], y[~m]) for b in betas])
            if np.abs(betas[0]).max() > 10 or np.abs(p.solution).max() > 10:
                R.outcome("separated")
                continue
            for lam, b in zip(seq, betas):
                g = pr.gradient(b, lam, idx, scale=len(m) / m.sum())
                v = pr.violation(b, g, lam, tol=5e-3 if lam == seq[0] else 2e-4)
                if v is not None:
                    R.fail(key + ":kkt", "fold held out %s, lagrange %r: %s" % (np.nonzero(~m)[0].tolist(), lam, v), info)
                    break
        ref = np.mean(scores, 0), np.std(scores, 0)
        for nm, a, r in (("mean", mean, ref[0]), ("std", std, ref[1])):
            a = np.asarray(a)
            R.check(a.shape == r.shape and np.allclose(a, r, rtol=1e-9, atol=1e-9 * (1 + np.abs(ref[0]).max()), equal_nan=True), key + ":" + nm,
                    lambda: "%s %s, expected %s" % (nm, a.tolist(), r.tolist()), info)
        R.outcome("%s:%s:%d" % (pr.kind, fitter, cv))
        return np.array([mean, std])


# ---------------------------------------------------------------- controlled threads

STATEMENTS = {}


def statements(filename):
    """first lines of the statements of a file"""
    if filename not in STATEMENTS:
        import ast
        with open(filename) as fh:
            STATEMENTS[filename] = {s.lineno for s in ast.walk(ast.parse(fh.read())) if isinstance(s, ast.stmt)}
    return STATEMENTS[filename]


class Scheduler(object):
    """runs tasks on threads, one at a time, switching only at the given points"""

    def __init__(self, scope, first, preempt):
        # lines: parts of file names every line of which is a switch point; calls: those whose calls are
        pre = os.sep + os.path.join("regreg", "paths", "")
        self.lines = {"core": (pre + "__init__.py", pre + "cross_validate.py"), "paths": (pre,), "calls": (pre,)}[scope]
        self.calls, self.scope = (os.sep + "regreg" + os.sep if scope == "calls" else pre), scope
        self.first, self.preempt = first, dict(preempt)
        self.count = []

    def __call__(self, tasks):
        tasks = list(tasks)
        n = len(tasks)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.count = [0] * n
        self.results, self.errors = [None] * n, []
        self.end = threading.Semaphore(0)
        ts = [threading.Thread(target=self._run, args=(i, t), daemon=True) for i, t in enumerate(tasks)]
        for t in ts:
            t.start()
        self.sem[self.first % n].release()
        self.end.acquire()
        for t in ts:
            t.join()
        if self.errors:
            raise self.errors[0]
        return self.results

    def _next(self, i):
        for j in list(range(i + 1, len(self.done))) + list(range(i + 1)):
            if not self.done[j]:
                return j
        return None

    def _run(self, i, task):
        self.sem[i].acquire()

        def point():
            k = self.count[i]
            self.count[i] = k + 1
            j = self.preempt.get((i, k))
            if j is not None and j < len(self.done) and not self.done[j]:
                self.sem[j].release()
                self.sem[i].acquire()

        depth = [0]
        deepest = 2 if self.scope == "core" else 10 ** 6     # core: the bodies of the fold and of the fitter only

        def local(frame, event, arg):
            if event == "line":
                if frame.f_lineno in statements(frame.f_code.co_filename):
                    point()
            elif event == "return":
                depth[0] -= 1
            return local

        def trace(frame, event, arg):
            f = frame.f_code.co_filename
            if any(x in f for x in self.lines) and depth[0] < deepest and event == "call":
                depth[0] += 1
                return local
            if self.calls in f:
                point()
            return None
        try:
            f, a, kw = task
            sys.settrace(trace)
            try:
                self.results[i] = f(*a, **kw)
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.errors.append(e)
        self.done[i] = True
        j = self._next(i)
        if j is None:
            self.end.release()
        else:
            self.sem[j].release()


class Quiet(object):
    """a garbage collector with nothing to do"""

    def __getattr__(self, name):
        return lambda *a, **k: 0


def scheduled(sched, pr, path, labels, cv, fitter, seq):
    import joblib.parallel as J
    from regreg import paths
    old = J.Parallel.__call__

    def call(self, jobs):
        return sched(jobs)
    J.Parallel.__call__ = call
    if hasattr(paths, "gc"):
        gc, paths.gc = paths.gc, Quiet()
    else:
        gc = None
    betas = []
    kw = dict(score=score_cox) if pr.loss == "cox" else {}
    base = {"strong": paths.strong_rules, "warm": paths.warm_start}[fitter]

    def record(p, s, i, **kw):
        out = base(p, s, i, **kw)
        betas.append(out["beta"])
        return out
    try:
        with Imposed(spread(pr, labels)):
            r = mod().cross_validate(path, seq, cv=cv, n_jobs=cv, verbose=False, inner_tol=1e-3, path_fitter=record, **kw)
    finally:
        J.Parallel.__call__ = old
        if gc is not None:
            paths.gc = gc
    return np.array(r), betas


def schedules(counts, bound, cv):
    """all (first, preemptions) up to the bound; counts are the numbers of switch points of each task"""
    for first in range(cv):
        yield first, ()
        for k in range(counts[first]):
            for j in range(cv):
                if j == first:
                    continue
                yield first, (((first, k), j),)
                if bound > 1:
                    for m in range(counts[j]):
                        for i in range(cv):
                            if i != j:
                                yield first, (((first, k), j), ((j, m), i))


def threads(R, i, tier, scope, bound, cv, part, parts):
    prs = THREADED()
    pr, fitter = prs[i]
    labels = np.floor(np.arange(8) / 8 * cv).astype(int)[[3, 0, 6, 1, 5, 2, 7, 4]]
    info = dict(pr.info, fitter=fitter, scope=scope, bound=bound, folds=labels.tolist())
    key = "threads:%s:%s" % (pr.kind, fitter)
    with R.guard(key, info):
        path = pr.build()
        seq = P.sequence(path, 2, .3)
        if tier == "quick" and fitter == "strong":
            seq = seq[1:]
        before = state_of(path)
        kw = dict(score=score_cox) if pr.loss == "cox" else {}
        with Imposed(spread(pr, labels)):
            ref = np.array(mod().cross_validate(path, seq, cv=cv, n_jobs=1, verbose=False, inner_tol=1e-3, **kw,
                                                path_fitter=getattr(__import__("regreg.paths", fromlist=["x"]), FITTER[fitter])))
        s = Scheduler(scope, 0, ())
        scheduled(s, pr, path, labels, cv, fitter, seq)
        counts = list(s.count)
        R.outcome("switch points %s:%s" % (scope, fitter), sum(counts) if part == 0 else 0)
        for q, (first, pre) in enumerate(schedules(counts, bound, cv)):
            if q % parts != part:
                continue
            R.state()
            R.trans(1 + len(pre))
            c = dict(info, first=first, preemptions=repr(pre))
            R.context = lambda: c
            got, _ = scheduled(Scheduler(scope, first, pre), pr, path, labels, cv, fitter, seq)
            R.trace()
            if not R.check(np.array_equal(got, ref), key + ":result", lambda: "scores %s under this schedule, %s one fold after the other" % (got.tolist(), ref.tolist()), c):
                break
        R.check(same(before, state_of(path)), key + ":path", "the path object was changed", info)


FITTER = {"strong": "strong_rules", "warm": "warm_start"}


def THREADED():
    return [(Q("lasso", "gaussian", P.W[1], P.ENET[2]), "strong"), (Q("lasso", "logistic", P.W[3], P.ENET[1]), "warm"),
            (Q("lasso", "gaussian", P.W[0], P.ENET[0], "normalized"), "strong"), (Q("lasso", "poisson", P.W[1], P.ENET[0], "sparse"), "warm"),
            (Q("group", "gaussian", (P.GROUPS[1], {1: 1., 2: 0., 3: 2.}), P.ENET[1]), "strong"), (Q("group", "cox", (P.GROUPS[0], None), P.ENET[0]), "warm"),
            (Q("sgl", "logistic", (P.GROUPS[1], P.W[1], None, .5), P.ENET[0]), "strong"), (Q("common", "multinomial", (1., 1.5, None), P.ENET[1]), "strong"),
            (Q("common", "multiresponse", (1., 1.5, .5), P.ENET[0]), "warm"), (Q("block", "gaussian", (1., 1.5, .5), P.ENET[1]), "strong")]


Q = P.Problem


def problems(tier):
    out = []
    for k, l in enumerate(P.SINGLE):
        out.append(Q("lasso", l, P.W[k % len(P.W)], P.ENET[k % 3], ("dense", "sparse", "normalized")[k % 3]))
        out.append(Q("lasso", l, P.W[(k + 3) % len(P.W)], P.ENET[(k + 1) % 3], ("sparse", "normalized", "dense")[k % 3]))
        out.append(Q("group", l, (P.GROUPS[k % len(P.GROUPS)], None), P.ENET[k % 3]))
        g = P.GROUPS[(k + 1) % 2]
        out.append(Q("group", l, (g, dict((x, (1., 0., 2.)[m % 3]) for m, x in enumerate(np.unique(g)))), P.ENET[(k + 2) % 3]))
        out.append(Q("sgl", l, (P.GROUPS[(k + 2) % len(P.GROUPS)], P.W[k % 3], None, (.5, .95, 0., 1.)[k % 4]), P.ENET[k % 3]))
        g = P.GROUPS[k % 2]
        ids = np.unique(g)
        out.append(Q("sgl", l, (g, np.array([0. if x == ids[1] else 1. for x in g]), dict((x, 0. if m == 1 else 2.) for m, x in enumerate(ids)), .5), P.ENET[(k + 1) % 3]))
        if l != "cox":
            out.append(Q("block", l, ((1, 1.5, None), (1., 0., None), (.5, 1.5, .5))[k % 3], P.ENET[k % 3]))
    for l in ("multinomial", "multiresponse"):
        for k, pen in enumerate(((1., 1.5, None), (1., 0., None), (0., 1., None), (1., 1.5, .5))):
            out.append(Q("common", l, pen, P.ENET[k % 3]))
    for k, p in enumerate(out):
        p.variant = P.VARIANTS[k % 5]
        p.info["scale_weights_offset"] = repr(p.variant)
    # without a ridge, cases a free feature separates have no solution
    for p in out:
        if p.loss not in ("gaussian", "huber", "multiresponse") and p.kind in ("lasso", "group", "sgl") and p.unpenalized().any():
            p.enet = (.5, None)
            p.info["elastic_net"] = repr(p.enet)
    return out


def units(tier):
    ps = problems(tier)
    us = [("folds/%d" % i, ("folds", i)) for i in range(len(ps))]
    us += [("real/%d" % i, ("real", i)) for i in range(0, len(THREADED()))]
    n = len(THREADED())
    if tier == "quick":
        us += [("threads/%d/%d" % (i, p), ("threads", i, "core", 1, 2, p, 3)) for i in (0, 1, 5, 8) for p in range(3)]
    else:
        us += [("threads/%d" % i, ("threads", i, "paths", 1, 3, 0, 1)) for i in range(n)]
        us += [("threads2/%d/%d" % (i, p), ("threads", i, "core", 2, 2, p, 16)) for i in range(n) for p in range(16)]
        us += [("calls/%d/%d" % (i, p), ("threads", i, "calls", 1, 2, p, 8)) for i in (1, 4) for p in range(8)]
    return us


def weight(name, args):
    return 2 if args[0] == "threads" else 1


def run(R, name, args, tier):
    import gc
    gc.collect()
    gc.freeze()     # the paths collect garbage at every step
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if args[0] == "threads":
            return threads(R, args[1], tier, *args[2:])
        if args[0] == "real":
            return real(R, args[1], tier)
        i = args[1]
        pr = problems(tier)[i]
        with R.guard("%s:build" % pr.kind, pr.info):
            path = pr.build()
            q = i
            for cv in (2, 4) if pr.kind == "block" else (2, 3) if tier == "quick" else (2, 3, 4, 8):    # equal numbers of both responses
                A = assignments(8, cv)
                step = (14 if i % 24 else 1) * {2: 1, 3: 5, 4: 10}[cv] if tier == "quick" else (35 if cv == 4 else 1)
                for labels in A[i % step::step]:
                    q += 1
                    R.state()
                    sc = score_cox if pr.loss == "cox" else (None, score_odd)[q % 2]
                    crossval(R, pr.kind, pr, path, labels, cv, "warm" if q % 3 == 0 else "strong", sc, dict(), n_jobs=1, alt=q % 5 == 0, given=q % 4 == 0)


def real(R, i, tier):
    """real threads give the same numbers"""
    pr, fitter = THREADED()[i]
    for cv in (2, 4, 8):
        for labels in assignments(8, cv)[::35 if cv == 2 else 500] if cv < 8 else assignments(8, 8):
            R.state()
            ref = None
            with R.guard("real:%s" % pr.kind, pr.info):
                path = pr.build()
                for nj in (1, 2, 3, -1):
                    got = crossval(R, "real:" + pr.kind, pr, path, labels, cv, fitter, score_cox if pr.loss == "cox" else None, dict(), n_jobs=nj)
                    if nj == 1:
                        ref = got
                    elif got is not None and ref is not None:
                        R.check(np.allclose(got, ref, rtol=1e-12, atol=0), "real:%s:jobs" % pr.kind, lambda: "scores depend on the number of jobs: %s, %s" % (got.tolist(), ref.tolist()),
                                dict(pr.info, n_jobs=nj, folds=repr(labels.tolist())))
