"""
The runner: a property is a set of facets; a facet is a strategy for JSON-able
case descriptions ("specs") and a function which executes one spec against the
code under test and either returns an Info or raises Violation.

  python -m pbt.core ID [--tier T] [--replay FILE]      run a check (parent)
  python -m pbt.core --worker ...                        one shard (internal)

Every random choice is made by Hypothesis from VERIF_SEED; shards are separate
processes.  A failing spec is shrunk by Hypothesis, written to replays/, and
must fail again in a fresh process before it is reported.
"""

import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
CASE_TIMEOUT = 40  # seconds a single case may take before it counts as hung
STALL = 150  # seconds without any case finishing before a shard is killed
BUDGET = {"quick": 230, "thorough": 2400}  # seconds per run


class Violation(Exception):
    """The property is broken by the case being executed."""


class Hang(Violation):
    """The case did not finish."""


class Skip(Exception):
    """The case cannot be executed here (counted, never silent)."""


class StopRun(BaseException):
    """Leave the generation loop."""


class Info(object):
    """What a case was: 'nontrivial' by the rule of the property, and labels."""

    def __init__(self, nontrivial=True, *labels):
        self.nontrivial = nontrivial
        self.labels = labels


class Facet(object):
    def __init__(self, name, strategy, run, quick, thorough=None, shards=2, corner=(),
                 timeout=CASE_TIMEOUT, setup=None, noise=""):
        self.name = name
        self.strategy = strategy  # a callable returning a Hypothesis strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.shards = shards
        self.corner = list(corner)  # specs which are always executed first
        self.timeout = timeout
        self.setup = setup
        # Which options, without a meaning for the property, the command lines
        # of the cases get in addition: verbosity (v, or only more of it: d), --no-sig-verify (s),
        # --psplash-pipe (p), --no-verify (n)
        self.noise = noise

    def noisy(self):
        """The strategy, with "_noise" added to the specs."""
        from hypothesis import strategies as st

        from pbt import gen

        if not self.noise:
            return self.strategy()
        words = {"v": st.sampled_from(["-q", "-d", "--quiet", "--debug"]), "d": st.sampled_from(["-d", "--debug"]), "s": st.just("--no-sig-verify"), "p": st.sampled_from(["--psplash-pipe=no such pipe", "--psplash-pipe=/dev/null"]),
                 "n": st.just("--no-verify")}
        noise = gen.weighted((2, st.none()), (1, st.fixed_dictionaries({k: gen.weighted((1, st.just("")), (1, words[k])) for k in self.noise}).flatmap(
            lambda n: st.booleans().map(lambda last: dict(n, last=last)))))
        return st.tuples(self.strategy(), noise).map(lambda t: dict(t[0], _noise=t[1]) if t[1] else t[0])


class Property(object):
    def __init__(self, id, rule, facets, assumptions=()):
        self.id = id
        self.rule = rule
        self.facets = facets
        self.assumptions = list(assumptions)

    def facet(self, name):
        for f in self.facets:
            if f.name == name:
                return f
        raise KeyError(name)


def load(pid):
    return importlib.import_module("pbt.props." + pid.lower()).PROPERTY


def from_repo(exc):
    """Did the exception pass through the code under test?"""
    while exc is not None:
        for frame in traceback.extract_tb(exc.__traceback__):
            if os.path.abspath(frame.filename).startswith(REPO + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def short(obj, n=600):
    s = json.dumps(obj, sort_keys=True)
    return s if len(s) <= n else s[:n] + "..."


class Executor(object):
    """Runs specs of one facet, classifying what happens."""

    def __init__(self, facet, heartbeat=None):
        self.facet = facet
        self.heartbeat = heartbeat

    def __call__(self, spec):
        from pbt import util

        if self.heartbeat:
            with open(self.heartbeat, "w") as f:
                json.dump(spec, f)

        def alarm(_sig, _frame):
            raise Hang("the case did not finish within %d s" % self.facet.timeout)

        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(self.facet.timeout)
        try:
            with util.case_scope(spec.get("_noise") if isinstance(spec, dict) else None):
                return self.facet.run(spec)
        except (Violation, Skip):
            raise
        except Exception as exc:  # pylint: disable=broad-except
            if from_repo(exc):
                raise Violation("unexpected %s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()))
            raise
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)


def worker(argv):
    pid, fname, shard, nshards, seed, count, outfile, deadline = argv
    shard, nshards, seed, count = int(shard), int(nshards), int(seed), int(count)
    deadline = float(deadline)
    from pbt import provider, util

    util.init_worker(os.path.dirname(outfile))
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 40
    prop = load(pid)
    facet = prop.facet(fname)
    if facet.setup:
        facet.setup()
    execute = Executor(facet, outfile + ".current")
    stats = {"evaluations": 0, "skipped": 0, "labels": {}, "hashes": [], "samples": [], "partial": False}
    hashes = set()
    failure = {}

    def one(spec):
        if time.time() > deadline and not failure:
            stats["partial"] = True
            raise StopRun()
        stats["evaluations"] += 1
        try:
            info = execute(spec)
        except Skip as exc:
            stats["skipped"] += 1
            key = "skip: %s" % exc
            stats["labels"][key] = stats["labels"].get(key, 0) + 1
            return
        except Violation as exc:
            if not failure:
                failure["first"] = spec
            failure["spec"] = spec
            failure["message"] = str(exc)
            if isinstance(exc, Hang):
                raise StopRun()
            if time.time() > deadline + 60:
                raise StopRun()
            raise
        info = info or Info()
        for label in info.labels:
            stats["labels"][label] = stats["labels"].get(label, 0) + 1
        if info.nontrivial:
            digest = hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]
            if digest not in hashes:
                hashes.add(digest)
                # (the first one is the simplest one there is)
                if len(hashes) in (1, 2, 5, 11, 23):
                    stats["samples"] = [short(spec)]

    status = "ok"
    error = None
    try:
        for i, spec in enumerate(facet.corner):
            if i % nshards == shard:
                one(spec)

        if count > 0:

            @hypothesis.seed(seed)
            @settings(
                max_examples=count,
                database=None,
                deadline=None,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                print_blob=False,
                report_multiple_bugs=False,
                backend=provider.NAME,
            )
            @given(facet.noisy())
            def test(spec):
                one(spec)

            test()
    except StopRun:
        pass
    except Exception as exc:  # pylint: disable=broad-except
        if not failure:
            status = "error"
            error = traceback.format_exc()
    if failure:
        status = "fail"
    stats["hashes"] = sorted(hashes)
    result = {"status": status, "error": error, "failure": failure, "stats": stats, "facet": fname, "shard": shard}
    with open(outfile + ".tmp", "w") as f:
        json.dump(result, f)
    os.rename(outfile + ".tmp", outfile)
    sys.stdout.flush()
    os._exit(0)


def replay_one(pid, fname, spec, quiet=False):
    """Execute a single spec in this process. Returns an error text or None."""
    from pbt import util

    prop = load(pid)
    facet = prop.facet(fname)
    scratch = tempfile.mkdtemp(prefix="pbt-replay-")
    util.init_worker(scratch)
    try:
        if facet.setup:
            facet.setup()
        Executor(facet)(spec)
        return None
    except Skip as exc:
        return None
    except Violation as exc:
        return str(exc)
    finally:
        util.cleanup_worker()
        shutil.rmtree(scratch, ignore_errors=True)


def child_env():
    env = dict(os.environ)
    env["PYTHONPATH"] = VERIF
    env["VERIF_REPO"] = REPO
    return env


def run_replay_process(path, timeout=150):
    """Returns (status, text): status is 'fail', 'pass', 'hang' or 'error'."""
    proc = subprocess.Popen(
        [sys.executable, "-B", "-m", "pbt.core", "--replay-internal", path],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env(), cwd=VERIF,
        stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = proc.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill_group(proc)
        return "hang", "the case did not finish within %d s" % timeout
    finally:
        kill_group(proc)
    text = out.decode(errors="replace")
    if proc.returncode == 0:
        return "pass", text
    if proc.returncode == 1:
        return "fail", text
    return "error", text


def kill_group(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        proc.wait(timeout=10)
    except subprocess.TimeoutExpired:
        pass


def save_replay(pid, fname, spec, message):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    digest = hashlib.sha1((fname + json.dumps(spec, sort_keys=True)).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, fname, digest))
    with open(path, "w") as f:
        json.dump({"property": pid, "facet": fname, "message": message, "spec": spec}, f, indent=1)
    return path


def known_findings(pid):
    """Entries 'known' of known-findings.jsonl for the property."""
    path = os.path.join(VERIF, "known-findings.jsonl")
    result = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    entry = json.loads(line)
                    if entry.get("property") == pid and entry.get("kind") == "known":
                        result.append(entry)
    return result


def cpu_count():
    return max(2, min(8, len(os.sched_getaffinity(0))))


def main_check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    prop = load(pid)
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % pid)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    deadline = start + BUDGET[tier]
    tasks = []
    only = os.environ.get("VERIF_FACET")
    for fi, facet in enumerate(prop.facets):
        if only and facet.name not in only.split(","):
            continue
        total = int(getattr(facet, tier) * scale)
        shards = facet.shards if tier == "quick" else max(facet.shards, 4)
        for shard in range(shards):
            count = total // shards + (1 if shard < total % shards else 0)
            wseed = int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (seed, pid, facet.name, shard)).encode()).digest()[:6], "big")
            tasks.append((facet, shard, shards, wseed, count))
    # Longest tasks first
    tasks.sort(key=lambda t: -t[4])
    running = []
    results = []
    hung = []
    errors = []
    stop = False
    env = child_env()
    idx = 0
    try:
        while (idx < len(tasks) or running) and not stop:
            while idx < len(tasks) and len(running) < cpu_count():
                facet, shard, shards, wseed, count = tasks[idx]
                wdir = os.path.join(scratch, "%s-%d" % (facet.name, shard))
                os.mkdir(wdir)
                out = os.path.join(wdir, "result.json")
                log = open(os.path.join(wdir, "log"), "wb")
                proc = subprocess.Popen(
                    [sys.executable, "-B", "-m", "pbt.core", "--worker", pid, facet.name, str(shard), str(shards),
                     str(wseed), str(count), out, str(deadline)],
                    stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, cwd=VERIF, start_new_session=True)
                log.close()
                running.append({"proc": proc, "out": out, "facet": facet, "shard": shard, "log": log.name, "seen": time.time(), "mtime": 0})
                idx += 1
            time.sleep(0.05)
            for r in list(running):
                if r["proc"].poll() is not None:
                    running.remove(r)
                    kill_group(r["proc"])
                    if os.path.exists(r["out"]):
                        with open(r["out"]) as f:
                            res = json.load(f)
                        results.append(res)
                        if res["status"] == "fail":
                            stop = True
                        if res["status"] == "error":
                            errors.append("%s/%d: %s" % (r["facet"].name, r["shard"], res["error"]))
                    else:
                        with open(r["log"], errors="replace") as f:
                            errors.append("%s/%d: worker died with code %s: %s" % (r["facet"].name, r["shard"], r["proc"].returncode, f.read()[-3000:]))
                    continue
                try:
                    mtime = os.stat(r["out"] + ".current").st_mtime_ns
                except OSError:
                    mtime = 0
                now = time.time()
                if mtime != r["mtime"]:
                    r["mtime"], r["seen"] = mtime, now
                if now - r["seen"] > STALL:
                    kill_group(r["proc"])
                    running.remove(r)
                    try:
                        with open(r["out"] + ".current") as f:
                            hung.append((r["facet"], json.load(f)))
                        stop = True
                    except (OSError, ValueError):
                        errors.append("%s/%d: stalled before its first case" % (r["facet"].name, r["shard"]))
    finally:
        for r in running:
            kill_group(r["proc"])

    # Confirm failures in fresh processes
    confirmed = []
    inconclusive = []
    candidates = []
    for res in results:
        if res["status"] == "fail":
            candidates.append((res["facet"], res["failure"]["spec"], res["failure"]["message"]))
            if res["failure"]["first"] != res["failure"]["spec"]:
                candidates.append((res["facet"], res["failure"]["first"], res["failure"]["message"]))
    for facet, spec in hung:
        candidates.append((facet.name, spec, "the case did not finish"))
    for fname, spec, message in candidates:
        if confirmed:
            break
        path = save_replay(pid, fname, spec, message)
        for _ in range(4):
            status, text = run_replay_process(path)
            if status in ("fail", "hang"):
                confirmed.append((path, fname, text if status == "fail" else message + "\n" + text))
                break
        else:
            os.unlink(path)
            inconclusive.append({"facet": fname, "spec": short(spec), "message": message[:2000]})

    shutil.rmtree(scratch, ignore_errors=True)
    from pbt import util

    util.sweep_leftovers(scratch)

    hashes = set()
    labels = {}
    samples = []
    evaluations = skipped = 0
    partial = False
    per_facet = {}
    for res in results:
        st = res["stats"]
        evaluations += st["evaluations"]
        skipped += st["skipped"]
        partial = partial or st["partial"]
        hashes.update(res["facet"] + h for h in st["hashes"])
        pf = per_facet.setdefault(res["facet"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}})
        pf["evaluations"] += st["evaluations"]
        pf["distinct_nontrivial"] += len(st["hashes"])
        for k, v in st["labels"].items():
            pf["labels"][k] = pf["labels"].get(k, 0) + v
        of_facet = pf.setdefault("samples", [])
        of_facet += st["samples"]
    of_facet = {name: pf.pop("samples") for name, pf in per_facet.items()}
    for i in range(max([len(x) for x in of_facet.values()] + [0])):
        samples += ["%s: %s" % (name, x[i]) for name, x in of_facet.items() if i < len(x)]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": LEVELS.get(pid, "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": prop.rule,
            "samples": samples[:12],
            "skipped": skipped,
            "stopped_by_time_budget": partial,
            "facets": per_facet,
        },
        "assumptions": prop.assumptions,
        "violations": len(confirmed),
        "wall_s": round(time.time() - start, 2),
    }
    if inconclusive:
        evidence["coverage"]["inconclusive"] = inconclusive
    if errors:
        evidence["coverage"]["errors"] = [e[-1500:] for e in errors]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d skipped, %.1f s%s" % (
        pid, tier, seed, evaluations, len(hashes), skipped, time.time() - start, " (time budget hit)" if partial else ""))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(per_facet, indent=1))
    for entry in inconclusive:
        print("inconclusive (did not fail again in a fresh process): %s" % json.dumps(entry)[:3000])
    for entry in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, entry.get("what", "")))
    if confirmed:
        for path, fname, text in confirmed:
            print("facet %s: %s" % (fname, text[:4000]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR in the harness: %s" % e)
        return 2
    if evaluations == 0 or not hashes:
        print("ERROR: nothing was explored")
        return 2
    return 0


LEVELS = {"K07": "fault_enumeration", "K08": "fault_enumeration"}


def main(argv):
    sys.path.insert(0, VERIF)
    if argv and argv[0] == "--worker":
        worker(argv[1:])
        return 0
    if argv and argv[0] == "--replay-internal":
        with open(argv[1]) as f:
            data = json.load(f)
        text = replay_one(data["property"], data["facet"], data["spec"])
        sys.stdout.flush()
        if text:
            print(text)
            sys.stdout.flush()
            os._exit(1)
        os._exit(0)
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--replay" in argv:
        path = os.path.abspath(argv[argv.index("--replay") + 1])
        status, text = run_replay_process(path)
        print(text)
        if status in ("fail", "hang"):
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("replay: %s" % status)
        return 0 if status == "pass" else 2
    return main_check(pid, tier)


if __name__ == "__main__":
    # Make 'pbt.core' and '__main__' the same module, so that exception classes
    # raised by property modules are the ones caught here.
    sys.modules["pbt.core"] = sys.modules["__main__"]
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
