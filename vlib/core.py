"""Runner: drives generated-input checks over all cores, shrinks failures,
writes evidence, prints VIOLATION / KNOWN-FINDING lines."""
import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

from . import bootstrap  # noqa: F401

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The library broke the property on this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted)."""


class Target:
    """One generated check: `strategy()` builds JSON-able cases, `oracle(case)`
    raises Violation or returns (nontrivial: bool, labels: list[str])."""

    def __init__(self, name, strategy, oracle, quick, thorough=None, chunk=None, cost=1.0,
                 scheduled=False):
        self.name = name
        self.strategy = strategy
        self.oracle = oracle
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.chunk = chunk or 10 ** 9
        self.cost = cost
        # the outcome depends on a thread schedule nobody controls: one
        # observed violation stands even if the next run passes
        self.scheduled = scheduled


class Check:
    def __init__(self, pid, rule, targets, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.targets = targets
        self.assumptions = list(assumptions)


def lib(what, f, *a, **k):
    """Call into the library; an exception on an input it must accept breaks
    the property."""
    try:
        return f(*a, **k)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:                             # noqa: BLE001
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]))


def from_library(e):
    """did this exception come out of the code under test?"""
    tb = e.__traceback__
    while tb is not None:
        if os.sep + "tti" + os.sep in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


MALFORMED = (TypeError, ValueError, LookupError, ArithmeticError)


def judge(t, case):
    """the oracle's verdict; an exception which escapes from the library where
    the oracle expected none is a violation, any other one a harness error"""
    try:
        return t.oracle(case)
    except (Violation, Skip):
        raise
    except Exception as e:                                  # noqa: BLE001
        if from_library(e):
            raise Violation("the library raised %s: %s" % (type(e).__name__, str(e)[:300]))
        if isinstance(e, MALFORMED):
            # what the library returned could not even be read
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("malformed result (%s: %s at %s:%d)" % (
                type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno))
        raise


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def _quiet():
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


def seed_of(*parts):
    return int(hashlib.sha1("|".join(map(str, parts)).encode()).hexdigest()[:12], 16)


_CHECK = None


def _run_job(job):
    ti, chunk, n, base_seed = job
    t = _CHECK.targets[ti]
    _quiet()
    res = {"target": t.name, "ti": ti, "evals": 0, "hashes": [], "labels": {}, "samples": [],
           "skips": 0, "fail": None, "error": None, "secs": 0.0}
    t0 = time.time()
    try:
        _drive(t, n, seed_of(base_seed, _CHECK.pid, t.name, chunk), res)
    except BaseException:                                   # noqa: BLE001
        res["error"] = traceback.format_exc()[-4000:]
    res["secs"] = time.time() - t0
    return res


def _drive(t, n, seedval, res):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    if hasattr(eng, "MAX_SHRINKING_SECONDS"):
        eng.MAX_SHRINKING_SECONDS = 25
    if hasattr(eng.ConjectureRunner, "generate_mutations_from"):
        # it spends five of six cases on near-copies of the previous one;
        # duplication where it matters is generated explicitly
        eng.ConjectureRunner.generate_mutations_from = lambda self, data: None
    state = {"last": None}
    seen = set()

    def body(case):
        counting = state["last"] is None
        try:
            out = judge(t, case)
        except Skip:
            if counting:
                res["evals"] += 1
                res["skips"] += 1
            return
        except Violation as v:
            if counting:
                res["evals"] += 1
            state["last"] = (case, str(v))
            raise
        if not counting:
            return
        nontrivial, labels = out
        res["evals"] += 1
        for x in labels:
            res["labels"][x] = res["labels"].get(x, 0) + 1
        if nontrivial:
            h = digest(case)
            if h not in seen:
                seen.add(h)
                if len(res["samples"]) < 1:
                    res["samples"].append(case)

    test = hypothesis.seed(seedval)(settings(
        max_examples=n, database=None, deadline=None, print_blob=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet)(
        given(t.strategy())(body)))
    try:
        test()
    except Violation:
        pass
    except BaseException:
        if state["last"] is None:
            raise
        # e.g. hypothesis.errors.Flaky after a genuine Violation: re-judged below
    if state["last"] is not None:
        case, msg = state["last"]
        # judge the shrunk case once more, without Hypothesis
        try:
            for _ in range(20 if t.scheduled else 1):
                judge(t, case)
            if t.scheduled:
                raise Violation(msg + " (seen on some thread schedules only)")
            res["error"] = "case failed once (%s) and then passed: %s" % (msg, json.dumps(
                case, default=str)[:1500])
        except Violation as v:
            res["fail"] = {"case": case, "message": str(v)}
    res["hashes"] = list(seen)


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _quiet()


def load_known(pid):
    """known-findings entries: `known: property=<id> target=<t> match=<text> :: what`"""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                head, _, what = line.partition("::")
                kv = dict(x.split("=", 1) for x in head.split()[1:] if "=" in x)
                out.append((kv, what.strip()))
    return out


def listed(known, r):
    return [w for kv, w in known if kv.get("target") == r["target"]
            and kv.get("case") == digest(r["fail"]["case"])]


def _short(x, lim=700):
    s = json.dumps(x, default=str)
    return x if len(s) <= lim else s[:lim] + "..."


def write_replay(pid, target, case, message):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, "".join(
        c if c.isalnum() else "_" for c in target), digest(case)))
    with open(path, "w") as f:
        json.dump({"property": pid, "target": target, "message": message, "case": case}, f,
                  indent=1, default=str)
    return path


def run(check, tier, seed, only=None, scale=1.0):
    global _CHECK
    _CHECK = check
    t0 = time.time()
    budget = 780 if tier == "quick" else 3 * 3600
    jobs = []
    for i, t in enumerate(check.targets):
        if only and only not in t.name:
            continue
        n = max(1, int((t.quick if tier == "quick" else t.thorough) * scale))
        k = max(1, math.ceil(n / t.chunk))
        for c in range(k):
            m = n // k + (1 if c < n % k else 0)
            if m:
                jobs.append((t.cost * m, (i, c, m, seed)))
    jobs.sort(key=lambda x: -x[0])
    jobs = [j for _, j in jobs]
    results, failures, errors = [], [], []
    known = load_known(check.pid)
    inconclusive = False
    nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(jobs)))
    ctx = mp.get_context("fork")
    pool = ctx.Pool(nproc, initializer=_init_worker, maxtasksperchild=40)
    try:
        it = pool.imap_unordered(_run_job, jobs, chunksize=1)
        for _ in range(len(jobs)):
            left = budget - (time.time() - t0)
            try:
                r = it.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                inconclusive = True
                break
            results.append(r)
            if r["error"]:
                errors.append((r["target"], r["error"]))
            if r["fail"]:
                failures.append(r)
                if not listed(known, r):
                    break
    finally:
        pool.terminate()
        pool.join()

    evals = sum(r["evals"] for r in results)
    hashes = set()
    labels, per, samples = {}, {}, []
    for r in sorted(results, key=lambda r: (r["ti"], digest(r["samples"]))):
        hashes.update((r["target"], h) for h in r["hashes"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        p = per.setdefault(r["target"], [0, 0, 0])
        p[0] += r["evals"]
        p[1] += len(r["hashes"])
        p[2] += r["skips"]
        samples += [{"target": r["target"], "case": _short(s)} for s in r["samples"]]
    step = max(1, len(samples) // 6)
    nviol = 0
    status = 0
    for r in failures:
        case, msg = r["fail"]["case"], r["fail"]["message"]
        hit = listed(known, r)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (check.pid, hit[0]))
            continue
        nviol += 1
        path = write_replay(check.pid, r["target"], case, msg)
        print("%s: %s" % (r["target"], msg))
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
        status = 1
    ev = {"property": check.pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes),
                       "rule": check.rule, "samples": samples[::step][:8],
                       "labels": dict(sorted(labels.items())),
                       "per_target": {k: {"evaluations": v[0], "distinct_nontrivial": v[1],
                                          "outside_domain": v[2]} for k, v in sorted(per.items())},
                       "complete": not inconclusive and len(results) == len(jobs)},
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", check.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n, e in errors:
        print("HARNESS-ERROR in %s:\n%s" % (n, e), file=sys.stderr)
    if inconclusive:
        print("time budget used up: inconclusive", file=sys.stderr)
    print("%s: %d cases, %d distinct non-trivial, %d targets, %.1fs, violations=%d" % (
        check.pid, evals, len(hashes), len(per), time.time() - t0, nviol))
    if status == 0 and (errors or inconclusive or evals == 0):
        return 3
    return status


def replay(check, path):
    _quiet()
    d = json.load(open(path))
    t = [t for t in check.targets if t.name == d["target"]][0]
    try:
        for _ in range(20 if t.scheduled else 1):
            judge(t, d["case"])
    except Violation as v:
        print("%s: %s" % (t.name, v))
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
        return 1
    print("no violation")
    return 0
