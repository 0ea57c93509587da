#!/usr/bin/env python3
"""plant_scratch.py BUGS.py [--only ID...] [--no-tests]: tries planted bugs in a scratch copy of /repo and keeps those that count in /verif/seeded.

BUGS.py defines B = [dict(id, prop, needs, breaks, edits=[(file, old, new), ...], demo="python source"), ...].  A bug is kept when
its demo passes on the clean build and fails with the change, and the stable tests pass with it; whether the quick check of its
property catches it is printed, and does not matter for keeping it."""
import argparse, concurrent.futures as cf, json, os, pathlib, re, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import mutate as M

PY = M.PY
D = "/tmp/w/plant"
DEMO = '#!/bin/bash\n# exit 0: the property holds\nD=$(cd "$(dirname "$0")" && pwd)\nexec timeout 240 /opt/venv/bin/python "$D/demo.py"\n'


def tests():
    rep = tempfile.mkdtemp(prefix="rep-", dir="/tmp/w")
    files = sorted(subprocess.run("ls tests/a_sync/test_base.py; find tests \\( -name 'test_*.py' -o -name '*_test.py' \\) ! -path tests/a_sync/test_base.py | sort", shell=True, cwd=D, capture_output=True, text=True).stdout.split(), key=lambda f: f != "tests/a_sync/test_base.py")
    env = dict(os.environ, PYTHONPATH=D, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")

    def run(f):
        n = f[:-3].replace("/", ".")
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", f"--max-asyncio-tasks={4 if f.endswith('test_base.py') else 100}", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={rep}/{n}.xml", f], cwd=D, env=env, capture_output=True, timeout=400)

    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(run, files))
    bad, n = set(), 0
    for x in pathlib.Path(rep).glob("*.xml"):
        for c in ET.parse(x).iter("testcase"):
            n += 1
            if any(k.tag in ("failure", "error") for k in c):
                bad.add(f'{c.get("classname")}::{c.get("name")}')
    shutil.rmtree(rep)
    return n, bad


def sh(*a, **k):
    return subprocess.run(a, cwd=D, capture_output=True, text=True, **k)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--no-tests", action="store_true")
    args = ap.parse_args()
    ns = {}
    exec(open(args.file).read(), ns)
    subprocess.run(["rsync", "-a", "--delete", "/repo/", D + "/"], check=True)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    mine = lambda f: {i for i, l in enumerate(sh("git", "blame", "-s", f).stdout.splitlines()) if not l.lstrip("^").startswith("7268573")}
    for b in ns["B"]:
        if args.only and b["id"] not in args.only:
            continue
        sh("git", "checkout", "-q", "--", ".")
        why = None
        for f, old, new in b["edits"]:
            p = os.path.join(D, f)
            src = open(p).read()
            at = M.find(src, old)
            if len(at) != 1:
                why = f"{len(at)} occurrences of {old[:50]!r}"
                break
            a, z = at[0]
            open(p, "w").write(src[:a] + new + src[z:])
        if why:
            print(b["id"], "BAD", why, flush=True)
            continue
        diff = sh("git", "diff").stdout
        gone = [l for l in sh("git", "diff", "-U0").stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
        own = []
        for f in {e[0] for e in b["edits"]}:
            sh("git", "stash", "-q")
            bl = [l for l in sh("git", "blame", "-s", f).stdout.splitlines() if not l.lstrip("^").startswith("7268573")]
            sh("git", "stash", "pop", "-q")
            own += [g for g in gone if g[1:].strip() and any(x.split(") ", 1)[-1].strip() == g[1:].strip() for x in bl)]
        M.build(D)
        with tempfile.TemporaryDirectory(prefix="demo-", dir="/tmp/w") as t:
            open(t + "/demo.py", "w").write(b["demo"])
            clean = subprocess.run(["timeout", "240", PY, t + "/demo.py"], cwd="/tmp", capture_output=True, text=True)
            bug = subprocess.run(["timeout", "240", PY, t + "/demo.py"], cwd="/tmp", capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=D))
        ok = clean.returncode == 0 and bug.returncode != 0
        print(b["id"], "demo clean", clean.returncode, "bug", bug.returncode, (bug.stderr.strip().splitlines() or [""])[-1][:150], "MINE:" + repr(own) if own else "", flush=True)
        if clean.returncode:
            print(clean.stderr[-600:])
        if not ok:
            continue
        if not args.no_tests:
            n, bad = tests()
            stable_bad = bad & base
            print("   tests", n, "failing stable:", sorted(stable_bad)[:5], flush=True)
            if stable_bad:
                continue
        s = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(s, exist_ok=True)
        open(s + "/patch.diff", "w").write(diff)
        open(s + "/demo.py", "w").write(b["demo"])
        open(s + "/demo.sh", "w").write(DEMO)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(s + "/meta.json", "w"), indent=1)
        code = M.ONE.format(verif=VERIF, repo=D, pid=b["prop"], seed=1, procs=4, scale=1.0, asan=False)
        r = subprocess.run([PY, "-c", code], capture_output=True, text=True, cwd="/tmp")
        print("   kept; check", b["prop"], r.returncode, r.stdout[:160].replace("\n", " "), flush=True)
    sh("git", "checkout", "-q", "--", ".")


main()
