#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Rebuilds /repo's extensions from its working tree, drives the scenario module lib/props/<id>.py in worker processes,
and reports: exit 0 held on everything observed, 1 violation (line VIOLATION property=ID replay=PATH), 2 no answer."""

import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B  # noqa: E402
import plan  # noqa: E402

HANG = 90  # seconds without a new case before a worker counts as hung


def worker_env(extra=None):
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("A_SYNC_", "EZASYNC_", "PYTHON", "LD_PRELOAD", "ASAN_"))
    }
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPYCACHEPREFIX=os.path.join(tempfile.gettempdir(), "verif-no-pycache"),
        PYTHONPATH=B.REPO,
        LC_ALL="C.UTF-8",
    )
    env.update(extra or {})
    return env


class Shard:
    def __init__(self, scratch, name, mod, job, env=None, attempt=0):
        self.mod, self.job, self.envx, self.name, self.attempt = mod, job, env, name, attempt
        base = os.path.join(scratch, f"{name}-{attempt}")
        job = dict(job, out=base + ".out.json", hb=base + ".hb")
        self.out, self.hb, self.log = job["out"], job["hb"], base + ".log"
        with open(base + ".job.json", "w") as f:
            json.dump(job, f)
        self.proc = subprocess.Popen(
            [B.PY, os.path.join(VERIF, "lib", "worker.py"), mod, base + ".job.json"],
            stdout=open(self.log, "w"),
            stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL,
            cwd=scratch,
            env=worker_env(env),
            start_new_session=True,
        )
        self.t0 = time.time()
        self.hung = False
        self.last_beat = None

    def beat(self):
        try:
            with open(self.hb) as f:
                self.last_beat = json.loads(f.read().strip() or "null")
        except (OSError, ValueError):
            pass  # not there yet, or read in the middle of a write
        return self.last_beat

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def poll(self):
        rc = self.proc.poll()
        if rc is not None:
            try:  # nothing the worker started may outlive it
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            return True
        b = self.beat()
        last = b[2] if b else self.t0
        if time.time() - last > self.job.get("hang", HANG):
            try:
                os.kill(self.proc.pid, signal.SIGUSR1)
                time.sleep(1)
            except OSError:
                pass
            self.hung = True
            self.kill()
            return True
        return False

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def tail(self, n=4000):
        try:
            with open(self.log, errors="replace") as f:
                return f.read()[-n:]
        except OSError:
            return ""


def run_shards(shards, procs, scratch):
    """Runs shard specs; returns list of (spec, Shard, result|None)."""
    todo, live, done = list(shards), [], []
    stop = False
    while todo or live:
        while todo and len(live) < procs and not stop:
            s = todo.pop(0)
            live.append((s, Shard(scratch, s["name"], s["mod"], s["job"], s.get("env"), s.get("attempt", 0))))
        for item in list(live):
            if item[1].poll():
                live.remove(item)
                r = item[1].result()
                done.append((item[0], item[1], r))
                if r and r["violation"]:
                    stop = True
        if stop:
            for _, sh in live:
                sh.kill()
            break
        time.sleep(0.05)
    return done


def load_known(pid):
    findings, path = {}, os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: ") and f"property={pid} " in line:
                rest = line.split(f"property={pid} ", 1)[1]
                mech, text = rest.split(" ", 1)
                findings[mech.removeprefix("mech=")] = text
    return findings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=0)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    ok, msg = B.build()
    if not ok:
        print("ERROR: /repo does not build:", msg)
        return 2
    scratch = tempfile.mkdtemp(prefix=f"verif-{a.pid}-")
    try:
        return decide(a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_replay(pid, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    digest = hashlib.sha256(json.dumps(v.get("case"), sort_keys=True, default=repr).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{digest}.json")
    with open(path, "w") as f:
        json.dump(dict(v, property=pid), f, indent=1, default=repr)
    return path


def decide(a, scratch, t0):
    pid = a.pid
    known = load_known(pid)
    spec = plan.CHECKS[pid]
    if a.replay:
        with open(a.replay) as f:
            v = json.load(f)
        sh = spec_for(spec, pid, a, scratch, known)
        base = next((s for s in sh if s["mod"] == v["module"] and s["job"].get("debug_log", False) == v.get("debug_log", False)), sh[0])
        base["job"]["replay"] = v["case"]
        shards = [dict(base, mod=v["module"])]
    else:
        shards = spec_for(spec, pid, a, scratch, known)
        if shards is None:
            return 2
    procs = a.procs or spec.get("procs", 6)
    done = run_shards(shards, procs, scratch)
    # --- verdict -------------------------------------------------------------
    counters, sigs, samples, cases, inconclusive, errors, findings = {}, set(), [], 0, 0, [], {}
    violation, retry = None, []
    for s, sh, r in done:
        if r is None:
            retry.append((s, sh))
            continue
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
        sigs.update((s["mod"] + x) for x in r["sigs"])
        samples += r["samples"]
        cases += r["cases"]
        inconclusive += r["inconclusive"]
        errors += r["errors"]
        findings.update(r.get("findings") or {})
        if r["violation"] and violation is None:
            violation = r["violation"]
        rep = sanitizer_report(s, sh)
        if rep and violation is None:
            violation = rep
        if sh.proc.returncode not in (0, -9) and violation is None:
            retry.append((s, sh))
    # a worker that died or hung: only a reproducible crash or hang is a violation
    if violation is None:
        for s, sh in retry:
            rep = sanitizer_report(s, sh)
            if rep:
                violation = rep
                break
            b = sh.beat()
            if sh.hung and s["job"].get("crash_only"):
                counters["hung_shards"] = counters.get("hung_shards", 0) + 1
                continue
            kind = "hang" if sh.hung else "crash"
            first = f"{kind} (exit {sh.proc.returncode})"
            case = b[1] if b else None
            again = 0
            for n in (1, 2):
                job = dict(s["job"])
                if case is not None and sh.hung:
                    job = dict(job, replay=case, hang=180)
                x = Shard(scratch, s["name"], s["mod"], job, s.get("env"), n)
                while not x.poll():
                    time.sleep(0.2)
                r = x.result()
                if r is not None and r["violation"]:
                    violation = r["violation"]
                    break
                if r is None or x.proc.returncode not in (0, -9):
                    again += 1
                    if case is None:
                        break
            if violation is None and again == 2:
                violation = {
                    "module": s["mod"],
                    "case": case,
                    "mech": kind,
                    "msg": f"reproducible {first}",
                    "trace": sh.tail(),
                    "debug_log": s["job"].get("debug_log", False),
                }
            if violation:
                break
            errors.append(f"worker {s['name']}: {first}, not reproduced ({again}/2): {sh.tail(600)}")
    # --- report --------------------------------------------------------------
    if a.replay:
        pass
    else:
        write_evidence(a, spec, cases, sigs, samples, counters, errors, violation, t0)
    if violation:
        path = write_replay(pid, violation)
        print(f"{violation['mech']}: {violation['msg'][:1500]}")
        print(f"case: {json.dumps(violation.get('case'), default=repr)[:1500]}")
        if violation.get("trace"):
            print(violation["trace"][-2500:])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if a.replay:
        print("replayed: no violation", counters)
        return 0
    for mech, text in known.items():
        if findings.get(mech) is True:
            print(f"KNOWN-FINDING: property={pid} {text}")
        else:
            print(f"note: listed finding {mech} was not observed ({findings.get(mech)!r})")
    for mech, seen in findings.items():
        if mech not in known and seen is True:
            print(f"unlisted defect probe fired: {mech}")
            path = write_replay(pid, {"module": shards[0]["mod"], "case": None, "mech": mech, "msg": "probe"})
            print(f"VIOLATION property={pid} replay={path}")
            return 1
    missing = {k: n for k, n in spec["require"].items() if counters.get(k, 0) < n}
    summary = f"{pid}: {cases} executions, {len(sigs)} distinct non-trivial, {counters}"
    print(summary[:3000])
    if missing or errors or not cases or inconclusive > cases:
        print("NO ANSWER: monitors did not observe enough:", missing, "errors:", errors[:3], "inconclusive:", inconclusive)
        return 2
    print(f"{pid} held on everything observed ({a.tier}, seed {a.seed}, {time.time() - t0:.1f}s)")
    return 0


def sanitizer_report(s, sh):
    pref = s.get("asan_log")
    if not pref:
        return None
    d = os.path.dirname(pref)
    for name in sorted(os.listdir(d)):
        if name.startswith(os.path.basename(pref) + "."):
            text = open(os.path.join(d, name), errors="replace").read()
            if "ERROR: AddressSanitizer" in text or "runtime error:" in text:
                b = sh.beat()
                return {
                    "module": s["mod"],
                    "case": b[1] if b else None,
                    "mech": "sanitizer",
                    "msg": text[:3000],
                    "trace": "",
                }
    return None


def spec_for(spec, pid, a, scratch, known):
    shards = []
    env_common = {}
    asan_prefix = None
    if spec.get("asan"):
        dest = os.path.join(scratch, "asan-src")
        ok, msg = B.build_asan(dest)
        if not ok:
            print("ERROR: sanitizer build failed:", msg)
            return None
    for m in spec["modules"]:
        k = m.get("procs", 6 if len(spec["modules"]) == 1 else 1)
        t = m[a.tier]
        n = max(1, int(t["cases"] * a.scale))
        k = min(k, n)
        for j in range(k):
            name = f"{m['mod']}{m.get('tag', '')}-{j}"
            env = dict(m.get("env", {}))
            job = {
                "tier": a.tier,
                "seed": a.seed,
                "start": j,
                "step": k,
                "cases": n,
                "cap": t["cap"],
                "known": sorted(known),
                "debug_log": m.get("debug_log", False),
                "clean_exit": m.get("clean_exit", False),
                "hang": m.get("hang", HANG),
                "params": m.get("params", {}),
                "crash_only": m.get("crash_only", False),
            }
            s = {"name": name, "mod": m["mod"], "job": job, "env": env}
            if spec.get("asan"):
                pref = os.path.join(scratch, f"asanlog-{name}")
                env.update(
                    LD_PRELOAD=B.asan_runtime(),
                    ASAN_OPTIONS=f"detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=99:log_path={pref}:"
                    "allocator_may_return_null=1:handle_segv=1:allow_user_segv_handler=0:detect_stack_use_after_return=0",
                    UBSAN_OPTIONS=f"halt_on_error=1:print_stacktrace=1:log_path={pref}",
                    PYTHONMALLOC="malloc",
                    PYTHONPATH=dest,
                )
                job["require_path"] = dest
                s["asan_log"] = pref
            shards.append(s)
    return shards


def write_evidence(a, spec, cases, sigs, samples, counters, errors, violation, t0):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": a.pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": spec["level"],
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(sigs),
            "rule": spec["rule"],
            "samples": samples[:6] or ["(none)"],
            "observed": counters,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if errors:
        ev["coverage"]["errors"] = errors[:5]
    with open(os.path.join(d, f"{a.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)


if __name__ == "__main__":
    sys.exit(main())
