"""Runs scenarios in forked children, searches seeds, minimises, replays, reports."""

from __future__ import annotations

import hashlib
import json
import mmap
import os
import pickle
import random
import re
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import kernel
from .kernel import Context, Violation, Stuck

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 60
WALL_LIMIT = 400

MEMORY = 2 << 30          # bytes one run may allocate


def scratch_base():
    for base in ("/dev/shm", "/tmp"):
        try:
            d = tempfile.mkdtemp(prefix="rnsim-", dir=base)
            return d
        except OSError:
            continue
    raise RuntimeError("no scratch directory")


class HarnessError(Exception):
    pass


def _child(mod, sc, scratch, out_fd, phase, notes, want_log, cpu):
    """Body of one forked run; never returns."""
    result = {}
    ctx = None

    def send(extra):
        result.update(extra)
        if ctx is not None:
            result.update(
                digest=ctx.log.hexdigest(), events=ctx.events, steps=ctx.steps,
                now=ctx.now, stats=ctx.stats, switches=ctx.switches, trails=ctx.trails,
                fired=ctx.fired, nontrivial=bool(ctx.nontrivial), notes=ctx.notes)
            if want_log:
                result["log"] = ctx.log_lines
        data = json.dumps(result, default=str).encode()
        view = memoryview(data)
        while view:
            view = view[os.write(out_fd, view):]

    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        null = os.open("/dev/null", os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        with open("/proc/self/statm", encoding="ascii") as statm:
            room = int(statm.read().split()[0]) * resource.getpagesize() + MEMORY
        resource.setrlimit(resource.RLIMIT_AS, (room, room))
        ctx = Context(scratch)
        ctx.nontrivial = False
        ctx.notes = dict(notes or {})
        if want_log:
            ctx.log_lines = []

        def sink(code, message):
            if code == "crash":
                send({"crashed": True})
            else:
                send({"violation": [code, message]})
                os._exit(0)

        ctx.violation_sink = sink
        ctx.install()
        try:
            if phase == 0:
                mod.run(ctx, sc)
            else:
                mod.after_crash(ctx, sc, ctx.notes)
            if ctx.escapes:
                raise Violation("escape", f"storage outside the target directory was to be changed: {ctx.escapes[:3]}")
            send({"ok": True})
        except Violation as v:
            send({"violation": [v.code, v.message]})
        except Stuck as s:
            send({"violation": ["no-progress", str(s)]})
        except BaseException as exc:  # pylint: disable=broad-except
            text = "".join(traceback.format_exception(exc))[-3000:]
            if kernel.in_library(exc) and not ctx.harness_error:
                send({"violation": ["unexpected-exception",
                                    f"{type(exc).__name__}: {str(exc)[:300]}"],
                      "traceback": text})
            else:
                send({"harness_error": text})
    except BaseException:  # pylint: disable=broad-except
        try:
            send({"harness_error": traceback.format_exc()})
        except BaseException:  # pylint: disable=broad-except
            pass
    finally:
        os._exit(0)


def _spawn(mod, sc, scratch, phase, notes, want_log, cpu):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(mod, sc, scratch, w, phase, notes, want_log, cpu)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + WALL_LIMIT
    timed_out = False
    while True:
        ready, _, _ = select.select([r], [], [], max(0.1, deadline - time.monotonic()))
        if not ready:
            if time.monotonic() >= deadline:
                timed_out = True
                os.kill(pid, signal.SIGKILL)
                break
            continue
        data = os.read(r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    text = b"".join(chunks)
    result = None
    if text:
        try:
            result = json.loads(text)
        except ValueError:
            # a crash message followed by nothing else is the only legal partial output
            result = {"harness_error": "unparsable result: " + repr(text[:400])}
    return result, status, timed_out


def run_scenario(mod, sc, base, want_log=False, cpu=CPU_LIMIT):
    """Execute one scenario; returns a result dict with at most one of
    violation / harness_error."""
    scratch = tempfile.mkdtemp(dir=base)
    try:
        result, status, timed_out = _spawn(mod, sc, scratch, 0, None, want_log, cpu)
        if timed_out:
            return {"harness_error": "wall-clock limit of one run exceeded", "digest": ""}
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig in (signal.SIGXCPU, signal.SIGKILL) and not (result or {}).get("ok"):
                if sig == signal.SIGKILL:
                    return {"harness_error": "run was killed (memory?)", "digest": ""}
                return {"violation": ["hang", f"no result after {cpu} s of processor time"],
                        "digest": "", "stats": {}, "hang": True}
            return {"violation": ["killed", f"the interpreter died from signal {sig}"],
                    "digest": "", "stats": {}}
        if result is None:
            return {"harness_error": f"no result, status {status}", "digest": ""}
        if result.get("crashed") and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 66:
            second, status, timed_out = _spawn(
                mod, sc, scratch, 1, result.get("notes"), want_log, cpu)
            if second is None or timed_out or os.WIFSIGNALED(status):
                return {"harness_error": f"no result after restart, status {status}",
                        "digest": ""}
            merged = dict(second)
            stats = dict(result.get("stats", {}))
            for k, v in second.get("stats", {}).items():
                stats[k] = stats.get(k, 0) + v
            stats["crash-restart"] = stats.get("crash-restart", 0) + 1
            merged["stats"] = stats
            merged["digest"] = hashlib.sha256(
                (result["digest"] + second.get("digest", "")).encode()).hexdigest()
            merged["switches"] = result.get("switches", [])
            merged["trails"] = result.get("trails", [])
            merged["fired"] = result.get("fired", []) + second.get("fired", [])
            merged["nontrivial"] = True
            merged["now"] = result.get("now", 0) + second.get("now", 0)
            merged["steps"] = result.get("steps", 0) + second.get("steps", 0)
            merged["log"] = (result.get("log") or []) + ["--- crash, restart ---"] + (
                second.get("log") or [])
            return merged
        return result
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def scenario_for(mod, seed, index, tier):
    rng = random.Random(f"{seed}/{mod.ID}/{index}")
    return mod.gen(rng, tier)


# --------------------------------------------------------------------------- known findings
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path, encoding="utf-8") as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("open", []) if e["property"] == prop]


def is_known(entries, violation):
    for e in entries:
        if e["code"] == violation[0] and re.search(e["match"], violation[1]):
            return e
    return None


# --------------------------------------------------------------------------- search
def search(mod, seed, tier, runs, budget_s, workers, base):
    """Run scenarios 0..runs-1 over forked workers; stop early on a violation."""
    flag = mmap.mmap(-1, 8)
    flag[:8] = struct.pack("q", 1 << 60)
    known = known_findings(mod.ID)
    start = time.monotonic()
    pipes = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(mod, seed, tier, runs, budget_s, w, workers, base, flag, known,
                        wr, start)
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append((pid, r))
    collected = []
    for pid, r in pipes:
        chunks = []
        while True:
            data = os.read(r, 1 << 20)
            if not data:
                break
            chunks.append(data)
        os.close(r)
        os.waitpid(pid, 0)
        blob = b"".join(chunks)
        if not blob:
            raise HarnessError("a worker died")
        collected.append(pickle.loads(blob))
    return collected, time.monotonic() - start


def _worker(mod, seed, tier, runs, budget_s, w, workers, base, flag, known, out, start):
    agg = {"runs": 0, "digests": {}, "stats": {}, "nontrivial": set(), "trails": set(),
           "fired": {}, "now": 0.0, "steps": 0, "violations": [], "known": {},
           "errors": [], "samples": [], "truncated": False, "fault_sets": set()}
    i = w
    while i < runs:
        if struct.unpack("q", flag[:8])[0] < i:
            break
        if time.monotonic() - start > budget_s:
            agg["truncated"] = True
            break
        sc = scenario_for(mod, seed, i, tier)
        result = run_scenario(mod, sc, base)
        if result.get("hang") or result.get("harness_error"):
            again = run_scenario(mod, sc, base, cpu=2 * CPU_LIMIT)
            if result.get("hang") and not again.get("hang"):
                agg["stats"]["slow-run"] = agg["stats"].get("slow-run", 0) + 1
            result = again
        agg["runs"] += 1
        agg["digests"][i] = result.get("digest", "")
        for k, v in result.get("stats", {}).items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        for f in result.get("fired", []):
            agg["fired"][f] = agg["fired"].get(f, 0) + 1
        if result.get("fired"):
            agg["fault_sets"].add(tuple(result["fired"]))
        agg["trails"].update(result.get("trails", []))
        agg["now"] += result.get("now", 0.0)
        agg["steps"] += result.get("steps", 0)
        if result.get("nontrivial"):
            agg["nontrivial"].add(result["digest"])
            if len(agg["samples"]) < 2:
                agg["samples"].append({"index": i, "scenario": _brief(sc)})
        if result.get("harness_error"):
            agg["errors"].append([i, result["harness_error"]])
            if len(agg["errors"]) >= 3:
                break
        elif result.get("violation"):
            entry = is_known(known, result["violation"])
            if entry is not None:
                agg["known"].setdefault(entry["id"], []).append(i)
            else:
                agg["violations"].append([i, result["violation"], result.get("traceback")])
                current = struct.unpack("q", flag[:8])[0]
                if i < current:
                    flag[:8] = struct.pack("q", i)
                break
        i += workers
    data = pickle.dumps(agg)
    view = memoryview(data)
    while view:
        view = view[os.write(out, view):]
    os.close(out)


def _brief(sc, limit=1500):
    text = json.dumps(sc)
    if len(text) <= limit:
        return sc
    return text[:limit] + "..."


# --------------------------------------------------------------------------- minimisation
def _candidates(sc):
    """Generic simplifications: drop elements of lists, drop optional parts."""
    for key in ("ops", "faults", "threads", "events", "damage"):
        items = sc.get(key)
        if isinstance(items, list) and items:
            n = len(items)
            size = n // 2
            while size >= 1:
                for at in range(0, n, size):
                    rest = items[:at] + items[at + size:]
                    yield {**sc, key: rest}
                size //= 2
    if sc.get("delivery"):
        yield {**sc, "delivery": {}}
        for k in list(sc["delivery"]):
            if k != "seed":
                yield {**sc, "delivery": {a: b for a, b in sc["delivery"].items() if a != k}}
    plan = sc.get("plan")
    if isinstance(plan, dict) and plan.get("mode") == "explicit" and plan.get("switches"):
        s = plan["switches"]
        n = len(s)
        size = max(1, n // 2)
        while size >= 1:
            for at in range(0, n, size):
                yield {**sc, "plan": {"mode": "explicit", "switches": s[:at] + s[at + size:]}}
            if size == 1:
                break
            size //= 2


def minimise(mod, sc, result, base, budget_s=45.0):
    """Greedy reduction keeping the violation code."""
    code = result["violation"][0]
    start = time.monotonic()
    tried = 0

    def fails(candidate):
        nonlocal tried
        tried += 1
        try:
            r = run_scenario(mod, candidate, base, cpu=20 if code != "hang" else CPU_LIMIT)
        except Exception:  # pylint: disable=broad-except
            return None
        if r.get("violation") and r["violation"][0] == code:
            return r
        return None

    plan = sc.get("plan")
    if isinstance(plan, dict) and plan.get("mode") == "random":
        candidate = {**sc, "plan": {"mode": "explicit", "switches": result.get("switches", [])}}
        r = fails(candidate)
        if r:
            sc, result = candidate, r
    progress = code != "hang"
    while progress and time.monotonic() - start < budget_s:
        progress = False
        own = getattr(mod, "shrink", None)
        import itertools
        streams = [_candidates(sc)]
        if own is not None:
            streams.insert(0, own(sc))
        for candidate in itertools.chain(*streams):
            if time.monotonic() - start > budget_s:
                break
            if candidate == sc:
                continue
            r = fails(candidate)
            if r:
                sc, result = candidate, r
                progress = True
                break
    return sc, result, tried


# --------------------------------------------------------------------------- commands
def write_replay(mod, seed, index, sc, result, base, original):
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    logged = run_scenario(mod, sc, base, want_log=True)
    path = os.path.join(VERIF, "out", f"{mod.ID}-{seed}-{index}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": mod.ID, "seed": seed, "index": index, "scenario": sc,
                   "violation": result["violation"], "digest": logged.get("digest"),
                   "traceback": result.get("traceback"),
                   "fault_trace": logged.get("fired"),
                   "schedule": logged.get("switches"),
                   "trace": (logged.get("log") or [])[-400:],
                   "unminimised": original}, f, indent=1)
    return path


def replay_in_fresh_process(path):
    r = subprocess.run([os.path.join(VERIF, "bin", "replay"), path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=600, check=False)
    return r.returncode == 1, r.stdout


def check(mod, tier, seed, workers=8):
    start = time.monotonic()
    runs = mod.RUNS[tier]
    budget = {"quick": 240, "thorough": 780}[tier]
    if os.environ.get("VERIF_RUNS"):
        runs = int(os.environ["VERIF_RUNS"])
    base = scratch_base()
    try:
        collected, wall = search(mod, seed, tier, runs, budget, workers, base)
        violations = sorted((v for a in collected for v in a["violations"]), key=lambda v: v[0])
        errors = [e for a in collected for e in a["errors"]]
        code = 0
        lines = []
        known = {}
        for a in collected:
            for k, v in a["known"].items():
                known.setdefault(k, []).extend(v)
        for e in known_findings(mod.ID):
            lines.append(f"KNOWN-FINDING: property={mod.ID} {e['what']}"
                         f" (met in {len(known.get(e['id'], []))} runs)")
        for index, violation, _tb in violations[:4]:
            # A violation counts when it repeats here and in a fresh process.
            sc = scenario_for(mod, seed, index, tier)
            result = run_scenario(mod, sc, base)
            if not result.get("violation"):
                print(f"run {index} did not repeat: {violation}", file=sys.stderr)
                code = 2
                continue
            small, small_result, _tried = minimise(mod, sc, result, base)
            path = write_replay(mod, seed, index, small, small_result, base, sc)
            good, text = replay_in_fresh_process(path)
            if not good:
                path = write_replay(mod, seed, index, sc, result, base, sc)
                good, text = replay_in_fresh_process(path)
            if good:
                code = 1
                lines.append(f"{mod.ID} run {index}: {small_result['violation'][0]}: "
                             f"{small_result['violation'][1][:600]}")
                if small_result.get("traceback"):
                    lines.append(small_result["traceback"][-1500:])
                lines.append(f"VIOLATION property={mod.ID} replay={path}")
                break
            print("replay did not reproduce:\n" + text[-2000:], file=sys.stderr)
            code = 2
        if errors and code == 0:
            print(f"harness error in run {errors[0][0]}:\n{errors[0][1]}", file=sys.stderr)
            code = 2
        evidence(mod, tier, seed, collected, wall, time.monotonic() - start,
                 len(violations), workers)
        for line in lines:
            print(line)
        total = sum(a["runs"] for a in collected)
        print(f"{mod.ID} {tier}: {total} runs in {wall:.1f} s, exit {code}")
        return code
    finally:
        shutil.rmtree(base, ignore_errors=True)


def evidence(mod, tier, seed, collected, wall, total_wall, violations, workers):
    stats, fired = {}, {}
    for a in collected:
        for k, v in a["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in a["fired"].items():
            fired[k] = fired.get(k, 0) + v
    runs = sum(a["runs"] for a in collected)
    nontrivial = set().union(*(a["nontrivial"] for a in collected))
    trails = set().union(*(a["trails"] for a in collected))
    fault_sets = set().union(*(a["fault_sets"] for a in collected))
    digests = {d for a in collected for d in a["digests"].values()}
    samples = [s for a in collected for s in a["samples"]][:4]
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")}
    now = sum(a["now"] for a in collected)
    data = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "runs_per_hour": int(runs / max(wall, 1e-9) * 3600),
            "seeds_per_hour": int(runs / max(wall, 1e-9) * 3600),
            "seed_derivation": "run i uses Random(f'{VERIF_SEED}/{property}/{i}'); one seed, one execution",
            "simulated_seconds": now,
            "simulated_calls": sum(a["steps"] for a in collected),
            "faults_injected": faults,
            "fault_sites_fired": dict(sorted(fired.items())),
            "distinct_fault_sequences": len(fault_sets),
            "distinct_schedules": len(trails),
            "distinct_event_logs": len(digests),
            "distinctness_measure": "sha256 of the ordered event log (calls, outcomes, storage calls with sizes and decisions, context switches)",
            "probes": probes,
            "real_components": mod.REAL,
            "stubbed_components": mod.STUBS,
            "workers": workers,
            "stopped_by_time": any(a["truncated"] for a in collected),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(total_wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{mod.ID}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1)


def replay(mod, path):
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    base = scratch_base()
    try:
        result = run_scenario(mod, data["scenario"], base, want_log=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if result.get("harness_error"):
        print(result["harness_error"])
        return 2
    for line in (result.get("log") or [])[-60:]:
        print("  " + line)
    if result.get("violation"):
        same = result["violation"][0] == data["violation"][0]
        if data.get("digest") and result.get("digest") != data["digest"]:
            print("note: event log differs from the recorded one")
        print(f"{result['violation'][0]}: {result['violation'][1]}")
        if result.get("traceback"):
            print(result["traceback"])
        if same:
            print(f"VIOLATION property={mod.ID} replay={path}")
            return 1
        return 2
    print("no violation")
    return 0
