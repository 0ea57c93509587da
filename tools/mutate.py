#!/usr/bin/env python3
"""mutate.py MUTANTS.py [--only ID...] [--slots N] [--tests]: plants each mutant in a scratch copy of /repo, builds it, runs the quick checks of its properties there.

MUTANTS.py defines M = [(id, file, old, new, "C01 C02", note), ...].  Results are appended to RESULTS next to it."""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = os.environ.get("MUT_BASE", "/tmp/w/mut")

ONE = r"""
import sys, json
sys.path.insert(0, {verif!r})
import check, argparse, tempfile, shutil, time, os
import build as B
B.REPO = {repo!r}
check.write_evidence = lambda *a: None
def wr(pid, v):
    return "none"
check.write_replay = wr
a = argparse.Namespace(pid={pid!r}, tier="quick", seed={seed}, replay=None, procs={procs}, scale={scale})
s = tempfile.mkdtemp(prefix="mut-")
try:
    if {asan}:
        pass
    rc = check.decide(a, s, time.time())
finally:
    shutil.rmtree(s, ignore_errors=True)
sys.exit(rc)
"""


def build(d):
    return subprocess.run([PY, "setup.py", "build_ext", "--inplace"], cwd=d, env=dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0"), capture_output=True, text=True)


def find(src, old):
    """Where OLD is in SRC, comments and blank lines between its lines ignored."""
    gap = r"[ \t]*(?:\#[^\n]*)?\n(?:[ \t]*(?:\#[^\n]*)?\n)*"
    return [m.span() for m in re.finditer(gap.join(re.escape(x) for x in old.split("\n")), src)]


def one(slot, mut, args):
    mid, file, old, new, props, *note = mut
    d = f"{BASE}/s{slot}"
    subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "/repo/", d + "/"], check=True)
    p = os.path.join(d, file)
    src = open(p).read()
    edits = [(old, new)] if isinstance(old, str) else list(zip(old, new))
    for o, n in edits:
        found = find(src, o)
        if len(found) != 1:
            return mid, "BAD", f"{len(found)} occurrences of {o[:60]!r}"
        src = src[: found[0][0]] + n + src[found[0][1] :]
    open(p, "w").write(src)
    if file.endswith((".pyx", ".pxd")):
        r = build(d)
        if r.returncode:
            return mid, "NOBUILD", (r.stdout + r.stderr)[-300:]
    out = []
    for pid in props.split():
        t = time.time()
        code = ONE.format(verif=VERIF, repo=d, pid=pid, seed=args.seed, procs=args.procs, scale=args.scale, asan=False)
        r = subprocess.run([PY, "-c", code], capture_output=True, text=True, cwd="/tmp", timeout=1200)
        lines = [x for x in r.stdout.splitlines() if x.strip()]
        out.append((pid, r.returncode, round(time.time() - t), (lines[0] if lines else r.stderr[-200:])[:160]))
        if r.returncode == 1 and not args.all:
            break
    caught = any(x[1] == 1 for x in out)
    tests = ""
    if args.tests and not caught:
        r = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"], cwd=d, env=dict(os.environ, PYTHONPATH=d), capture_output=True, text=True)
        tests = r.stdout[-200:]
    return mid, "caught" if caught else "MISSED", out, tests


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--slots", type=int, default=2)
    ap.add_argument("--procs", type=int, default=6)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--all", action="store_true")
    args = ap.parse_args()
    ns = {}
    exec(open(args.file).read(), ns)
    todo = [m for m in ns["M"] if not args.only or m[0] in args.only]
    os.makedirs(BASE, exist_ok=True)
    import queue

    slots = queue.Queue()
    for i in range(args.slots):
        slots.put(i)

    def go(m):
        s = slots.get()
        try:
            return one(s, m, args)
        except Exception as e:
            return m[0], "ERROR", repr(e)
        finally:
            slots.put(s)

    with cf.ThreadPoolExecutor(args.slots) as ex:
        for r in ex.map(go, todo):
            print(*r, flush=True)


if __name__ == "__main__":
    main()
