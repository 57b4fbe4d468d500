"""Runner: drives generated cases (Hypothesis) through the checks of one property in parallel worker processes.

A property module (props/cNN.py) defines
    PROPERTY = "C05"
    RULE     = "when a case counts as non-trivial"
    CHECKS   = [Check(...), ...]
    ASSUMPTIONS = [...] (optional)
    setup()  (optional, run once in every worker before cases)
A Check has a strategy that produces a plain (JSON-able) case, and a function run(case, ctx) that raises on violation:
any exception that leaves run() is a violation.  ctx.label(..) classifies cases, ctx.nontrivial() marks them.
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYPOTHESIS_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WORKERS = max(1, min(8, os.cpu_count() or 1))
CASE_CPU_LIMIT = 60  # seconds of CPU time: a case which needs more does not terminate (typical: milliseconds)


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    """defect of the harness, never a violation"""


class NonTermination(BaseException):
    pass


class Check(object):
    def __init__(self, name, strategy, run, quick, thorough=None, chunk=50, exhaustive=None, timeout=CASE_CPU_LIMIT):
        """
        :param strategy: () -> hypothesis strategy
        :param quick, thorough: number of cases
        :param exhaustive: optional () -> iterable of cases that are always run
        """
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.chunk = chunk
        self.exhaustive = exhaustive
        self.timeout = timeout


class Ctx(object):
    def __init__(self, scratch):
        self.labels = set()
        self.is_nontrivial = False
        self._scratch = scratch
        self._n = 0

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def scratch(self):
        """new empty directory, removed after the case"""
        self._n += 1
        return tempfile.mkdtemp(prefix="case-", dir=self._scratch)


def check(cond, message, *details):
    if not cond:
        raise Violation(message + (": " + " | ".join(_short(d) for d in details) if details else ""))


def check_eq(actual, expected, what):
    if not (actual == expected):
        raise Violation("{}: got {}, expected {}".format(what, _short(actual), _short(expected)))


def check_raises(exc, func, what):
    try:
        result = func()
    except exc:
        return
    except Exception as e:
        raise Violation("{}: raised {} instead of {}".format(what, repr(e), exc))
    raise Violation("{}: nothing raised, returned {}".format(what, _short(result)))


def _short(obj, n=600):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[:n] + "..."


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True, ensure_ascii=True).encode(), digest_size=8).hexdigest()


# ---------------------------------------------------------------- environment

def prepare_imports():
    sys.dont_write_bytecode = True
    for p in (os.path.join(REPO, "babylondigger"), REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    if HYPOTHESIS_PATH not in sys.path:
        sys.path.append(HYPOTHESIS_PATH)


_case_deadline_hit = False


def _alarm(signum, frame):
    raise NonTermination()


@contextlib.contextmanager
def _quiet():
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def normalize(case):
    return json.loads(json.dumps(case))


def run_case(chk, case, scratch_base):
    """-> (ctx, None | violation message)"""
    scratch = tempfile.mkdtemp(prefix="s-", dir=scratch_base)
    ctx = Ctx(scratch)
    rnd_state = random.getstate()
    random.seed(0)
    failure = None
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, chk.timeout)
    try:
        with _quiet():
            chk.run(case, ctx)
    except HarnessError:
        raise
    except NonTermination:
        failure = "no result after {} s of CPU time".format(chk.timeout)
    except MemoryError:
        raise HarnessError("out of memory")
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # includes SystemExit
        failure = "".join(traceback.format_exception(type(e), e, e.__traceback__, limit=-12))
        failure = "{}: {}\n{}".format(type(e).__name__, e, failure)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        random.setstate(rnd_state)
        shutil.rmtree(scratch, ignore_errors=True)
    return ctx, failure


# ---------------------------------------------------------------- worker

class _Found(Exception):
    pass


def _run_chunk(chk, seed, count, scratch, stats, stop_at):
    """runs `count` generated cases; -> None or (case, message)"""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45

    last = {}
    found_at = [None]

    @settings(max_examples=count, database=None, deadline=None, derandomize=False,
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              phases=(Phase.generate, Phase.shrink), print_blob=False)
    @hypothesis.seed(seed)
    @given(chk.strategy())
    def test(case):
        if found_at[0] is None and time.time() > stop_at:
            stats["timed_out"] = True
            return
        if found_at[0] is not None and time.time() > found_at[0] + 60:
            # shrinking budget: stop accepting simplifications
            if digest(case) != last.get("digest"):
                return
        case = normalize(case)  # exactly what a replay file would contain
        ctx, failure = run_case(chk, case, scratch)
        if found_at[0] is None:
            stats["evaluations"] += 1
            for label in ctx.labels:
                stats["labels"][label] += 1
            if ctx.is_nontrivial:
                d = digest(case)
                if d not in stats["digests"]:
                    stats["digests"].add(d)
                    if len(stats["samples"]) < 3:
                        stats["samples"].append(case)
        if failure is not None:
            last["case"], last["message"], last["digest"] = case, failure, digest(case)
            if found_at[0] is None:
                found_at[0] = time.time()
            raise _Found()

    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except HarnessError:
        raise
    except BaseException as e:
        if "case" in last:
            return last["case"], last["message"]
        raise HarnessError("generator failed: " + "".join(traceback.format_exception(type(e), e, e.__traceback__)))
    if "case" in last:  # flaky while shrinking: the recorded failing case still counts if it fails again
        return last["case"], last["message"]
    return None


def worker_main(args):
    prop, worker, base_seed, plan, time_cap, scratch = args
    prepare_imports()
    out = {"worker": worker, "error": None, "violation": None, "checks": {}}
    try:
        module = importlib.import_module("props." + prop.lower())
        if hasattr(module, "setup"):
            with contextlib.redirect_stdout(io.StringIO()):
                module.setup()
        checks = {c.name: c for c in module.CHECKS}
        stats = {name: {"evaluations": 0, "digests": set(), "samples": [], "labels": Counter(), "timed_out": False}
                 for name in checks}
        stop_at = time.time() + time_cap
        for name, chunk_no, count in plan:
            chk = checks[name]
            if chunk_no < 0:  # exhaustive cases assigned to this worker: (name, -1 - worker index, number of workers)
                for i, case in enumerate(chk.exhaustive()):
                    if i % count != -1 - chunk_no:
                        continue
                    case = normalize(case)
                    ctx, failure = run_case(chk, case, scratch)
                    st = stats[name]
                    st["evaluations"] += 1
                    st["labels"].update(ctx.labels)
                    if ctx.is_nontrivial:
                        st["digests"].add(digest(case))
                    if failure is not None:
                        out["violation"] = {"check": name, "case": case, "message": failure}
                        break
                if out["violation"]:
                    break
                continue
            if time.time() > stop_at:
                stats[name]["timed_out"] = True
                continue
            seed = int(hashlib.blake2b("{}/{}/{}/{}".format(base_seed, prop, name, chunk_no).encode(), digest_size=6).hexdigest(), 16)
            found = _run_chunk(chk, seed, count, scratch, stats[name], stop_at)
            if found is not None:
                out["violation"] = {"check": name, "case": found[0], "message": found[1]}
                break
        for name, st in stats.items():
            out["checks"][name] = {"evaluations": st["evaluations"], "digests": list(st["digests"]), "samples": st["samples"],
                                   "labels": dict(st["labels"]), "timed_out": st["timed_out"]}
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    return out


# ---------------------------------------------------------------- main

def _worker_entry(conn, args):
    try:
        # children write nowhere: code under test prints a lot
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if os.environ.get("VERIF_DEBUG") != "1":
            os.dup2(devnull, 2)
        result = worker_main(args)
    except BaseException as e:
        result = {"worker": args[1], "error": repr(e), "violation": None, "checks": {}}
    try:
        payload = json.dumps(result)
    except Exception as e:
        payload = json.dumps({"worker": args[1], "error": "unserializable result: %r" % e, "violation": None, "checks": {}})
    conn.send(payload)
    conn.close()
    os._exit(0)


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=None)
    parser.add_argument("--replay", default=None)
    parser.add_argument("--only", default=None, help="run only this check (development)")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--time", type=float, default=None)
    opts = parser.parse_args(argv)
    prop = opts.property
    if opts.replay:
        return replay(prop, opts.replay)

    tier = opts.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = os.environ.get("VERIF_SEED") or "1"
    started = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-{}-".format(prop.lower()))
    tempfile.tempdir = os.environ["TMPDIR"] = scratch  # whatever else is put in a temporary folder is removed as well
    try:
        return _run(prop, tier, seed, scratch, started, opts)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, tier, seed, scratch, started, opts):
    prepare_imports()
    try:
        meta = _module_meta(prop)
    except BaseException as e:
        traceback.print_exc()
        return 2
    plan = [[] for _ in range(WORKERS)]
    jobs = []
    for c in meta["checks"]:
        if opts.only and c["name"] != opts.only:
            continue
        if c["exhaustive"]:
            for w in range(WORKERS):
                plan[w].append((c["name"], -1 - w, WORKERS))
        total = max(1, int((c["quick"] if tier == "quick" else c["thorough"]) * opts.scale))
        n_chunks = max(1, -(-total // c["chunk"]))
        for i in range(n_chunks):
            jobs.append((i / n_chunks, c["name"], i, min(c["chunk"], total - i * c["chunk"])))
    jobs.sort(key=lambda j: (j[0], j[1]))
    for i, job in enumerate(jobs):
        plan[i % WORKERS].append(job[1:])
    time_cap = opts.time if opts.time is not None else (240 if tier == "quick" else 5400)

    mp = multiprocessing.get_context("spawn")
    procs = []
    for w in range(WORKERS):
        if not plan[w]:
            continue
        parent, child = mp.Pipe(duplex=False)
        p = mp.Process(target=_worker_entry, args=(child, (prop, w, seed, plan[w], time_cap, scratch)))
        p.start()
        child.close()
        procs.append((p, parent))
    results = []
    error = None
    pending = list(procs)
    while pending:
        ready = multiprocessing.connection.wait([c for _, c in pending], timeout=5)
        for conn in ready:
            p = next(p for p, c in pending if c is conn)
            try:
                results.append(json.loads(conn.recv()))
            except EOFError:
                p.join()
                results.append({"worker": -1, "error": "worker died (exit {})".format(p.exitcode), "violation": None, "checks": {}})
            pending = [(q, c) for q, c in pending if c is not conn]
        if any(r["violation"] for r in results):
            # one minimal counterexample is enough
            time.sleep(0.2)
            for p, c in pending:
                p.terminate()
            break
    for p, _ in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
            p.join()

    violations = [r["violation"] for r in results if r["violation"]]
    errors = [r["error"] for r in results if r["error"]]
    agg = {}
    for r in results:
        for name, st in r["checks"].items():
            a = agg.setdefault(name, {"evaluations": 0, "digests": set(), "samples": [], "labels": Counter(), "timed_out": False})
            a["evaluations"] += st["evaluations"]
            a["digests"].update(st["digests"])
            a["samples"].extend(st["samples"])
            a["labels"].update(st["labels"])
            a["timed_out"] |= st["timed_out"]
    wall = time.time() - started
    _write_evidence(prop, tier, seed, meta, agg, wall, violations)
    total = sum(a["evaluations"] for a in agg.values())
    nontrivial = sum(len(a["digests"]) for a in agg.values())
    print("{} tier={} seed={} cases={} distinct_nontrivial={} wall={:.1f}s".format(prop, tier, seed, total, nontrivial, wall))
    for name, a in sorted(agg.items()):
        print("  {}: cases={} nontrivial={}{} labels={}".format(
            name, a["evaluations"], len(a["digests"]), " (time cap hit)" if a["timed_out"] else "",
            {k: v for k, v in sorted(a["labels"].items())}))
    if violations:
        v = min(violations, key=lambda v: len(json.dumps(v["case"])))
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "{}-{}.json".format(prop, digest([v["check"], v["case"]])))
        with open(path, "w", encoding="utf8") as f:
            json.dump({"property": prop, "check": v["check"], "case": v["case"], "message": v["message"]}, f, indent=1, ensure_ascii=True)
        print("check '{}' failed:\n{}".format(v["check"], _short(v["message"], 4000)))
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if errors:
        for e in errors[:1]:
            print("HARNESS ERROR\n" + (e if len(e) < 3000 else e[:1500] + "\n...\n" + e[-1500:]))
        return 2
    if total == 0:
        print("HARNESS ERROR: nothing was generated")
        return 2
    return 0


def _module_meta(prop):
    module = importlib.import_module("props." + prop.lower())
    if module.PROPERTY != prop:
        raise HarnessError("wrong module")
    return {"checks": [{"name": c.name, "quick": c.quick, "thorough": c.thorough, "chunk": c.chunk, "exhaustive": c.exhaustive is not None}
                       for c in module.CHECKS],
            "rule": module.RULE, "assumptions": getattr(module, "ASSUMPTIONS", [])}


def _write_evidence(prop, tier, seed, meta, agg, wall, violations):
    samples = []
    for name, a in sorted(agg.items()):
        ranked = sorted(a["samples"], key=lambda s: len(json.dumps(s)))
        for s in ranked[len(ranked) // 2:][:2]:
            samples.append(_short(json.dumps({"check": name, "case": s}, ensure_ascii=True), 1500))
    data = {
        "property": prop, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0, "level": "exploration",
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in agg.values()),
            "distinct_nontrivial": sum(len(a["digests"]) for a in agg.values()),
            "rule": meta["rule"],
            "samples": samples,
            "by_check": {name: {"evaluations": a["evaluations"], "distinct_nontrivial": len(a["digests"]),
                                "labels": dict(sorted(a["labels"].items())), "time_cap_hit": a["timed_out"]}
                         for name, a in sorted(agg.items())},
        },
        "assumptions": meta["assumptions"],
        "violations": len(violations),
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf8") as f:
        json.dump(data, f, indent=1, ensure_ascii=True)


def replay(prop, path):
    prepare_imports()
    with open(path, encoding="utf8") as f:
        data = json.load(f)
    module = importlib.import_module("props." + prop.lower())
    if hasattr(module, "setup"):
        module.setup()
    chk = next(c for c in module.CHECKS if c.name == data["check"])
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    tempfile.tempdir = os.environ["TMPDIR"] = scratch  # whatever else is put in a temporary folder is removed as well
    try:
        _, failure = run_case(chk, data["case"], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if failure is None:
        print("replay of {} passes".format(path))
        return 0
    print(failure)
    print("VIOLATION property={} replay={}".format(prop, os.path.abspath(path)))
    return 1
