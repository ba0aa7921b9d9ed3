"""Runner shared by all checks: bounded exhaustive enumeration on the real code.

A check is a module with
    PROPERTY, TITLE, LEVEL, RULE, ASSUMPTIONS
    units(tier)            -> list of (name, args); together they are the whole bounded space
    run(R, name, args, tier)   explores one unit and reports to the Recorder R
Nothing is sampled: a unit enumerates its part of the space completely.
"""
import argparse, collections, contextlib, importlib, json, multiprocessing, os, shutil, signal, sys, time, traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MIRROR = None
MAXFAIL = 5


class Stop(Exception):
    pass


class UnitTimeout(BaseException):
    pass


class Recorder(object):

    def __init__(self, prop, unit, known):
        self.prop, self.unit, self.known = prop, unit, known
        self.states = self.transitions = self.traces = 0
        self.failures, self.hit_known, self.samples = [], {}, []
        self.outcomes = collections.Counter()
        self.nfail = 0
        self.context = None

    # -- counters
    def state(self, n=1):
        self.states += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label, n=1):
        self.outcomes[label] += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- verdicts
    def fail(self, key, msg, case=None):
        """key identifies what fails (and is what known_findings.json lists), case the exact point."""
        if key in self.known:
            e = self.hit_known.setdefault(key, [0, None])
            e[0] += 1
            if e[1] is None:
                e[1] = "%s | %s" % (msg, jsonable(case))
            return
        self.nfail += 1
        if len(self.failures) < MAXFAIL and not any(f["key"] == key for f in self.failures):
            self.failures.append(dict(property=self.prop, key=key, msg=msg, case=jsonable(case),
                                      unit=jsonable(self.unit)))

    def check(self, ok, key, msg, case=None):
        if not ok:
            self.fail(key, msg() if callable(msg) else msg, case() if callable(case) else case)
        return bool(ok)

    @contextlib.contextmanager
    def guard(self, key, case=None):
        """An exception that leaves the library here is a violation; one of the harness is an error."""
        try:
            yield
        except Stop:
            pass
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            if not _from_library(tb):
                raise
            where = [f for f in tb if MIRROR and f.filename.startswith(MIRROR)]
            loc = ("%s:%s" % (os.path.relpath(where[-1].filename, MIRROR), where[-1].name)) if where else "?"
            self.fail(key + ":raises", "raised %s: %s in %s" % (type(e).__name__, str(e)[:200], loc),
                      case() if callable(case) else case)


def _from_library(tb):
    for f in tb:
        if MIRROR and f.filename.startswith(MIRROR):
            return True
        if f.filename.endswith(".pyx"):
            return True
    return False


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if x == x and abs(x) != float("inf") else str(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if x is None or isinstance(x, (int, str, bool)):
        return x
    return repr(x)[:300]


# ---------------------------------------------------------------- worker

_state = {}


def _work(job):
    i, name, args = job
    mod, tier, known, limit = _state["mod"], _state["tier"], _state["known"], _state["limit"]
    R = Recorder(mod.PROPERTY, (name, args), known)
    t = time.time()
    err = None

    def onalarm(*a):
        raise UnitTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np
            np.random.seed(int(os.environ.get("VERIF_SEED", "1") or 1) % 2 ** 31)
            with np.errstate(all="ignore"):
                mod.run(R, name, args, tier)
    except UnitTimeout:
        R.fail("%s:nontermination" % name, "no answer within %d s" % limit, dict(context=R.context))
    except (MemoryError, OSError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        if _from_library(tb):
            where = [f for f in tb if MIRROR and f.filename.startswith(MIRROR)]
            loc = ("%s:%s" % (os.path.relpath(where[-1].filename, MIRROR), where[-1].name)) if where else "?"
            R.fail("%s:raises" % name, "raised %s: %s in %s" % (type(e).__name__, str(e)[:200], loc),
                   dict(context=R.context))
        else:
            err = traceback.format_exc()
    finally:
        signal.alarm(0)
    return dict(i=i, name=name, states=R.states, transitions=R.transitions, traces=R.traces,
                failures=R.failures, nfail=R.nfail, known=R.hit_known, samples=R.samples,
                outcomes=dict(R.outcomes), err=err, wall=time.time() - t)


def main(argv=None):
    global MIRROR
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--unit", help="only units whose name contains this (development)")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    t0 = time.time()
    from . import build
    MIRROR = build.mirror()
    parent = os.getpid()
    try:
        return _main(a, t0)
    finally:
        if os.getpid() == parent:
            shutil.rmtree(MIRROR, ignore_errors=True)


def _load(check):
    d = os.path.join(VERIF, "checks")
    cand = [f[:-3] for f in sorted(os.listdir(d)) if f.lower().startswith(check.lower()) and f.endswith(".py")]
    if len(cand) != 1:
        raise SystemExit("no such check: %s (%s)" % (check, cand))
    return importlib.import_module("checks." + cand[0])


def known_findings(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as fh:
            entries = json.load(fh)
    except IOError:
        return {}
    return {e["key"]: e for e in entries.get("known", []) if e["property"] == prop}


def _main(a, t0):
    from . import build
    build.activate(MIRROR)
    mod = _load(a.check)
    prop = mod.PROPERTY
    known = known_findings(prop)
    units = [(n, args) for n, args in mod.units(a.tier)]
    if a.unit:
        units = [u for u in units if a.unit in u[0]]
    if a.replay:
        with open(a.replay) as fh:
            rep = json.load(fh)
        units = [u for u in units if jsonable(u) == rep["unit"]]
        if not units:
            units = [u for u in mod.units("thorough") if jsonable(u) == rep["unit"]]
            a.tier = "thorough"
        known = {}
    jobs = [(i, n, args) for i, (n, args) in enumerate(units)]
    quick = a.tier == "quick"
    unit_limit = 400 if quick else 3600
    total_limit = 780 if quick else 6 * 3600
    _state.update(mod=mod, tier=a.tier, known=set(known), limit=unit_limit)
    order = sorted(jobs, key=lambda j: -getattr(mod, "weight", lambda n, x: 1)(j[1], j[2]))
    results, hang = [], False
    if a.j > 1 and len(jobs) > 1:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(a.j)
        it = pool.imap_unordered(_work, order, 1)
        for _ in jobs:
            try:
                results.append(it.next(timeout=max(1, total_limit - (time.time() - t0))))
            except multiprocessing.TimeoutError:
                hang = True
                break
            except StopIteration:
                break
        pool.terminate()
        pool.join()
    else:
        for j in order:
            results.append(_work(j))
    results.sort(key=lambda r: r["i"])
    errs = [r for r in results if r["err"]]
    failures = [f for r in results for f in r["failures"]]
    for r in errs:
        sys.stderr.write("unit %s\n%s\n" % (r["name"], r["err"]))
        failures.append(dict(property=prop, key="unusable-result:%s" % r["name"],
                             msg="the oracle could not interpret what the code returned: " +
                             r["err"].strip().splitlines()[-1], case=None, unit=jsonable([r["name"], None])))
    if hang:
        done = {r["i"] for r in results}
        left = [j for j in jobs if j[0] not in done]
        failures.append(dict(property=prop, key="nontermination", msg="no answer within the time limit",
                             case=jsonable([l[1] for l in left[:10]]), unit=jsonable(left[0][1:]) if left else None))
    tot = lambda k: sum(r[k] for r in results)
    outcomes = collections.Counter()
    for r in results:
        for k, v in r["outcomes"].items():
            outcomes[k] += v
    samples = [s for r in results for s in r["samples"]][:12]
    hits = {}
    for r in results:
        for k, v in r["known"].items():
            e = hits.setdefault(k, [0, v[1]])
            e[0] += v[0]
    if a.v or a.unit:
        for r in [r for r in results if r["nfail"] or r["wall"] > 2.5]:
            print("  %-50s states=%d trans=%d traces=%d fails=%d %.1fs" % (r["name"], r["states"], r["transitions"],
                                                             r["traces"], r["nfail"], r["wall"]))
    if a.replay:
        for f in failures:
            if f["key"] == rep["key"]:
                print("reproduced:", json.dumps(f, indent=1))
                return 1
        print("not reproduced")
        return 0
    cov = dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("traces"),
               evaluations=tot("transitions"), distinct_nontrivial=tot("states"), rule=mod.RULE,
               exhaustive=not (errs or hang), units=len(results), outcomes=dict(outcomes.most_common(60)),
               bounds=getattr(mod, "BOUNDS", {}).get(a.tier) if isinstance(getattr(mod, "BOUNDS", None), dict) else None,
               samples=jsonable(samples) or [jsonable(units[0])], known_findings_hit=hits)
    cov = {k: v for k, v in cov.items() if v is not None}
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=mod.LEVEL,
              coverage=cov, assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2),
              violations=len(failures))
    if not a.unit:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
        os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s: units=%d states=%d transitions=%d traces=%d outcomes=%d failures=%d wall=%.1fs" % (
        prop, a.tier, len(results), cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        len(outcomes), tot("nfail"), time.time() - t0))
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s [%s] (%d points) e.g. %s" % (prop, known[k]["what"], k, hits[k][0],
                                                                       str(hits[k][1])[:300]))
    if failures:
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for f in failures:
            if f["key"] in seen:
                continue
            p = os.path.join(rd, "%s_%d.json" % (prop, len(seen)))
            seen[f["key"]] = p
            with open(p, "w") as fh:
                json.dump(f, fh, indent=1)
            if len(seen) <= (200 if a.v else 12):
                print("  %s :: %s :: %s" % (f["key"], f["msg"][:160], json.dumps(f["case"])[:260]))
        first = failures[0]
        print("VIOLATION property=%s replay=%s" % (prop, seen[first["key"]]))
        return 1
    return 0
