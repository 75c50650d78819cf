"""
Shared harness: cases, monitors ("obs"), the worker loop, and the driver that
fans cases out over worker processes, turns what they observed into evidence,
and decides the exit code.

A check is a module in /verif/checks with

  PROPERTY   property id
  VARIANT    build variant, "std" or "asan"
  PARTS      list of Part(name, function, quick cases, thorough cases, need)
  RULE       when an evaluation counts as distinct and nontrivial
  ASSUME     list of assumptions

Each part function gets (rng, obs, tier) and is one case: it derives all of
its choices from the rng, so (part, case seed) replays it exactly.
"""

from __future__ import annotations

import collections
import hashlib
import importlib
import json
import os
import pathlib
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / "evidence"
REPLAYS = EVIDENCE / "replays"
KNOWN = VERIF / "known_findings.jsonl"

PY = "/opt/venv/bin/python"
CRASH = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE,
         signal.SIGILL, signal.SIGTRAP}
HUNG = "Timeout (0:0"  # faulthandler's watchdog, where a check arms it
CASE_CPU_LIMIT = 90  # seconds; ordinary cases take milliseconds


class Part:
    def __init__(self, name, func, quick, thorough, need=None):
        self.name = name
        self.func = func
        self.cases = {"quick": quick, "thorough": thorough}
        self.need = need or {}


class Violation(Exception):
    def __init__(self, mechanism, detail=""):
        super().__init__(f"{mechanism}: {detail}")
        self.mechanism = mechanism
        self.detail = detail


class Skip(Exception):
    """Case does not exercise the property."""


def fmt(obj, limit=1500):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= limit else s[:limit] + "..."


class Obs:
    """What the monitors of a worker observed."""

    def __init__(self):
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.known = {}
        self.evaluations = 0

    def count(self, key, n=1):
        self.counters[key] += n

    def seen(self, *sig):
        """Records a distinct, nontrivial observed state or behaviour."""
        if len(self.sigs) < 200_000:
            self.sigs.add(hashlib.blake2b(repr(sig).encode(),
                                          digest_size=8).hexdigest())

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(fmt(text, 400))

    def ev(self, n=1):
        self.evaluations += n

    def check(self, cond, mechanism, detail=""):
        self.evaluations += 1
        if not cond:
            if callable(detail):
                detail = detail()
            raise Violation(mechanism, fmt(detail, 6000))

    def equal(self, got, want, mechanism, detail=""):
        self.evaluations += 1
        if got != want:
            if callable(detail):
                detail = detail()
            raise Violation(mechanism,
                            f"got {fmt(got)}, expected {fmt(want)}; "
                            f"{fmt(detail, 6000)}")

    def raises(self, types, func, mechanism, detail=""):
        self.evaluations += 1
        try:
            func()
        except types as exc:
            return exc
        if callable(detail):
            detail = detail()
        raise Violation(mechanism,
                        f"no {types} was raised; {fmt(detail, 6000)}")


def case_seed(seed, part, idx):
    h = hashlib.blake2b(f"{seed}/{part}/{idx}".encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


def known_findings(prop):
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if line and not line.startswith("#"):
                entry = json.loads(line)
                if entry.get("property") == prop and entry.get(
                        "status") == "known":
                    out.append(entry)
    return out


# ---------------------------------------------------------------- worker ----


def run_case(mod, part, seed, obs, tier):
    """Returns None or a violation dictionary."""
    rng = random.Random(seed)
    try:
        part.func(rng, obs, tier)
    except Skip:
        obs.count(f"{part.name}.skipped")
    except Violation as v:
        return dict(part=part.name, seed=seed, mechanism=v.mechanism,
                    detail=v.detail, where=_where())
    except MemoryError:
        raise
    except Exception as exc:  # the code under test raised where it must not
        return dict(part=part.name, seed=seed,
                    mechanism=f"unexpected {type(exc).__name__}",
                    detail=fmt(traceback.format_exc(), 6000), where=_where())
    else:
        obs.count(f"{part.name}.cases")
    return None


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    for fr in reversed(tb):
        if "/checks/" in fr.filename:
            return f"{pathlib.Path(fr.filename).name}:{fr.lineno}"
    return ""


def worker_main(argv):
    cfg = json.loads(pathlib.Path(argv[0]).read_text())
    sys.setrecursionlimit(20_000)
    mod = importlib.import_module(cfg["module"])
    parts = {p.name: p for p in mod.PARTS}
    obs = Obs()
    known = known_findings(mod.PROPERTY)
    result = dict(violations=[], known=[], done=False, case_s={})
    cur = open(cfg["current"], "w", buffering=1)
    deadline = time.monotonic() + cfg["budget"]
    soft, hard = resource.getrlimit(resource.RLIMIT_CPU)

    for name, seed in cfg["cases"]:
        if time.monotonic() > deadline and not cfg.get("replay"):
            obs.count("budget_reached")
            break
        part = parts[name]
        cur.seek(0)
        cur.truncate()
        cur.write(json.dumps([name, seed]))
        cur.flush()
        used = resource.getrusage(resource.RUSAGE_SELF)
        resource.setrlimit(resource.RLIMIT_CPU, (
            int(used.ru_utime + used.ru_stime) + cfg["cpu_limit"], hard))
        t0 = time.monotonic()
        v = run_case(mod, part, seed, obs, cfg["tier"])
        dt = time.monotonic() - t0
        rec = result["case_s"].setdefault(name, [0, 0.0, 0.0])
        rec[0] += 1
        rec[1] += dt
        rec[2] = max(rec[2], dt)
        if v:
            hit = [k for k in known if k["mechanism"] == v["mechanism"]
                   and k.get("match", "") in v["detail"]]
            if hit:
                result["known"].append([hit[0]["what"], name, seed])
            else:
                result["violations"].append(v)
                break
    cur.seek(0)
    cur.truncate()
    cur.write("null")
    cur.close()
    result.update(done=True, counters=dict(obs.counters),
                  sigs=sorted(obs.sigs), samples=obs.samples,
                  evaluations=obs.evaluations)
    tmp = cfg["result"] + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(result, fh)
    os.replace(tmp, cfg["result"])
    # Skip interpreter teardown: results are on disk already.
    sys.stdout.flush()
    os._exit(0)


# ---------------------------------------------------------------- driver ----


class Job:
    def __init__(self, cfg, env, tmp, tag):
        self.tag = tag
        self.cfg = dict(cfg, current=str(tmp / f"{tag}.cur"),
                        result=str(tmp / f"{tag}.json"))
        path = tmp / f"{tag}.cfg"
        path.write_text(json.dumps(self.cfg))
        self.log = tmp / f"{tag}.log"
        self.fh = open(self.log, "wb")
        # ThreadSanitizer defers signal handlers, and hangs in this one.
        fault = [] if env.get("TSAN_OPTIONS") else ["-X", "faulthandler"]
        self.proc = subprocess.Popen(
            [PY, *fault, "-m", "vlib.worker", str(path)],
            cwd=str(VERIF), env=env, stdout=self.fh, stderr=self.fh,
            stdin=subprocess.DEVNULL, start_new_session=True)

    def wait(self, timeout=None):
        end = time.monotonic() + (timeout or 1e9)
        try:
            while True:
                try:
                    self.proc.wait(1)
                    return True
                except subprocess.TimeoutExpired:
                    if time.monotonic() > end or HUNG in self.tail():
                        time.sleep(1)  # lets the watchdog write its report
                        self.kill()
                        self.proc.wait()
                        return False
        finally:
            self.fh.close()

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def current(self):
        try:
            return json.loads(pathlib.Path(self.cfg["current"]).read_text())
        except Exception:
            return None

    def result(self):
        try:
            return json.loads(pathlib.Path(self.cfg["result"]).read_text())
        except Exception:
            return None

    def tail(self, n=4000):
        data = self.log.read_bytes()
        marks = [data.find(m) for m in (
            b"Fatal Python error", b"ERROR: AddressSanitizer",
            b"runtime error:", b"Assertion", b"WARNING: ThreadSanitizer")]
        i = min([m for m in marks if m >= 0], default=-1)
        if i >= 0:
            data = data[max(0, i - 300):i + n]
        else:
            data = data[-n:]
        return data.decode(errors="replace")


def write_replay(prop, module, tier, v, log=""):
    REPLAYS.mkdir(parents=True, exist_ok=True)
    path = REPLAYS / f"{prop}-{v['part']}-{v['seed']}.json"
    path.write_text(json.dumps(dict(property=prop, module=module, tier=tier,
                                    log=log, **v), indent=1))
    return path


def drive(module, tier, seed, only=None, jobs=None):
    from vlib import build as vbuild

    t0 = time.monotonic()
    sys.path.insert(0, str(VERIF))
    mod = importlib.import_module(module)
    prop = mod.PROPERTY
    EVIDENCE.mkdir(exist_ok=True)
    variant = getattr(mod, "VARIANT", "std")
    try:
        if hasattr(mod, "prepare"):
            overlay, env = mod.prepare(tier)
        else:
            overlay = vbuild.build(variant)
            env = vbuild.runtime_env(variant, overlay)
    except vbuild.BuildError as exc:
        print(f"INCONCLUSIVE property={prop}: build failed\n{exc}")
        return 3
    build_s = time.monotonic() - t0

    jobs = jobs or min(os.cpu_count() or 1, 8)
    budget = getattr(mod, "BUDGET", {}).get(
        tier, 240 if tier == "quick" else 3000)
    cases = []
    for part in mod.PARTS:
        if only and part.name not in only:
            continue
        for i in range(part.cases[tier]):
            cases.append((part.name, case_seed(seed, part.name, i)))
    random.Random(seed).shuffle(cases)
    # Each part's first cases early, so that a cut-off never starves one.
    tmp = VERIF / ".build" / f"run-{prop}-{os.getpid()}"
    tmp.mkdir(parents=True, exist_ok=True)
    base = dict(module=module, tier=tier, budget=budget,
                cpu_limit=CASE_CPU_LIMIT)
    workers = [Job(dict(base, cases=cases[k::jobs]), env, tmp, f"w{k}")
               for k in range(jobs) if cases[k::jobs]]

    obs = Obs()
    violations, inconclusive, case_s = [], [], {}
    known = collections.Counter()
    logs = {}
    for job in workers:
        job.wait(timeout=budget + 3 * CASE_CPU_LIMIT)
        res = job.result()
        if res is None:
            cur = job.current()
            rc = job.proc.returncode
            if cur is None:
                inconclusive.append(f"worker {job.tag} ended with {rc} "
                                    f"outside of a case:\n{job.tail()}")
                continue
            if violations and rc == -signal.SIGXCPU:
                continue  # already decided; do not wait for another hang
            v = judge_death(mod, base, env, tmp, job, cur, rc)
            if isinstance(v, dict):
                violations.append(v)
                logs[v["seed"]] = job.tail(8000)
            else:
                inconclusive.append(v)
            continue
        obs.counters.update(res["counters"])
        obs.sigs.update(res["sigs"])
        obs.samples += res["samples"]
        obs.evaluations += res["evaluations"]
        violations += res["violations"]
        for what, *_ in res["known"]:
            known[what] += 1
        for name, (n, s, m) in res["case_s"].items():
            rec = case_s.setdefault(name, [0, 0.0, 0.0])
            rec[0] += n
            rec[1] += s
            rec[2] = max(rec[2], m)

    if not violations and hasattr(mod, "finish"):
        # Cross-worker conclusions; may append violations.
        violations += mod.finish(obs, tier) or []

    missing = []
    for part in mod.PARTS:
        if only and part.name not in only:
            continue
        for key, need in part.need.items():
            if obs.counters[key] < need:
                missing.append(f"{key}: {obs.counters[key]} < {need}")

    wall = time.monotonic() - t0
    coverage = dict(
        evaluations=obs.evaluations,
        distinct_nontrivial=len(obs.sigs),
        rule=mod.RULE,
        samples=obs.samples[:8],
        monitors={k: v for k, v in sorted(obs.counters.items())},
        parts={k: dict(cases=v[0], cpu_s=round(v[1], 2),
                       slowest_case_s=round(v[2], 3))
               for k, v in sorted(case_s.items())},
        build_variant=variant, build_s=round(build_s, 1), workers=len(workers),
        known_findings=dict(known), inconclusive=inconclusive + missing,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=coverage, wall_s=round(wall, 2),
              assumptions=getattr(mod, "ASSUME", []),
              violations=len(violations))
    coverage["violation_details"] = [
        dict(mechanism=v["mechanism"], part=v["part"], seed=v["seed"],
             detail=fmt(v["detail"], 600)) for v in violations]
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    subprocess.run(["rm", "-rf", str(tmp)])

    for what, n in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {what} (seen {n}x)")
    if violations:
        seen = set()
        for v in violations:
            path = write_replay(prop, module, tier, v,
                                logs.get(v["seed"], ""))
            print(f"VIOLATION property={prop} replay={path}")
            if v["mechanism"] not in seen:
                seen.add(v["mechanism"])
                print(f"  {v['mechanism']}: {fmt(v['detail'], 1200)}")
        return 1
    if inconclusive or missing:
        print(f"INCONCLUSIVE property={prop}: {inconclusive + missing}")
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} evaluations="
          f"{obs.evaluations} distinct={len(obs.sigs)} build={build_s:.0f}s "
          f"wall={wall:.0f}s")
    return 0


def judge_death(mod, base, env, tmp, job, cur, rc):
    """A worker died during a case: decides what that means."""
    name, seed = cur
    sig = signal.Signals(-rc) if rc < 0 else None
    if sig in CRASH or (rc > 0 and "Sanitizer" in job.tail(20000)):
        what = crash_kind(job.tail(20000), sig)
        return dict(part=name, seed=seed, mechanism=what,
                    detail=job.tail(3000), where="")
    # Hung (CPU limit, SIGXCPU) or killed from outside: try it on its own.
    again = Job(dict(base, cases=[[name, seed]], replay=True,
                     cpu_limit=CASE_CPU_LIMIT), env, tmp, f"again-{job.tag}")
    again.wait(timeout=6 * CASE_CPU_LIMIT)
    res = again.result()
    if res is not None:
        if res["violations"]:
            return res["violations"][0]
        return (f"worker {job.tag} ended with {rc} in {name}/{seed}, which "
                f"completes on its own:\n{job.tail()}")
    rc2 = again.proc.returncode
    if HUNG in job.tail() and HUNG in again.tail():
        return dict(part=name, seed=seed, mechanism="threads hang",
                    detail=again.tail(3000), where="")
    if rc2 == -signal.SIGXCPU:
        return dict(part=name, seed=seed, mechanism="does not terminate",
                    detail=f"case used over {CASE_CPU_LIMIT} s of CPU time "
                           f"twice", where="")
    if rc2 < 0 and signal.Signals(-rc2) in CRASH:
        return dict(part=name, seed=seed,
                    mechanism=crash_kind(again.tail(20000),
                                         signal.Signals(-rc2)),
                    detail=again.tail(3000), where="")
    return f"worker died with {rc}, then {rc2}:\n{again.tail()}"


def crash_kind(log, sig):
    import re

    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", log)
    if m:
        return f"AddressSanitizer {m.group(1)}"
    m = re.search(r"WARNING: ThreadSanitizer:? ([\w -]+?) \(", log)
    if m:
        where = re.search(r"#0 ([^\n]{0,120})", log)
        return (f"ThreadSanitizer {m.group(1)} in "
                f"{where.group(1) if where else '?'}")
    m = re.search(r"runtime error: ([^\n]{0,80})", log)
    if m:
        return f"UndefinedBehaviorSanitizer {m.group(1)}"
    m = re.search(r"Assertion [`'](.{0,120}?)' failed", log)
    if m:
        return f"assertion failed: {m.group(1)}"
    return f"crash with {sig.name if sig else 'error'}"


def replay(path):
    from vlib import build as vbuild

    rec = json.loads(pathlib.Path(path).read_text())
    mod = importlib.import_module(rec["module"])
    if hasattr(mod, "prepare"):
        overlay, env = mod.prepare(rec["tier"])
    else:
        overlay = vbuild.build(mod.VARIANT)
        env = vbuild.runtime_env(mod.VARIANT, overlay)
    tmp = VERIF / ".build" / f"replay-{os.getpid()}"
    tmp.mkdir(parents=True, exist_ok=True)
    job = Job(dict(module=rec["module"], tier=rec["tier"], budget=600,
                   cpu_limit=CASE_CPU_LIMIT, replay=True,
                   cases=[[rec["part"], rec["seed"]]]), env, tmp, "r")
    job.wait(timeout=1200)
    res = job.result()
    print(job.tail(6000))
    subprocess.run(["rm", "-rf", str(tmp)])
    if res is None or res["violations"]:
        if res:
            print(json.dumps(res["violations"], indent=1))
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print("no violation on replay")
    return 0
