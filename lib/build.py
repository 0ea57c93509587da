"""Brings /repo's in-place Cython build up to date with the working tree (git-ignored products only).

Cython and setuptools go by mtime, so sources put back with an older mtime would keep a stale binary: content hashes in
/repo/build/source-hashes.json decide instead (the same file the sandbox's own build script keeps)."""

import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def sources(root):
    found = ["setup.py"]
    for ext in ("pyx", "pxd", "pxi"):
        found += glob.glob(f"a_sync/**/*.{ext}", root_dir=root, recursive=True)
    hashes = {}
    for path in sorted(found):
        with open(os.path.join(root, path), "rb") as f:
            hashes[path] = hashlib.sha256(f.read()).hexdigest()
    r = subprocess.run([PY, "-c", "import Cython; print(Cython.__version__)"], capture_output=True, text=True, cwd="/")
    hashes["cython"] = r.stdout.strip()
    return hashes


def build_env():
    env = dict(os.environ)
    env.update(
        SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0",
        PYTHONDONTWRITEBYTECODE="1",
        PIP_NO_INDEX="1",
        HOME=env.get("HOME", "/root"),
        LANG="C.UTF-8",
    )
    for k in ("CFLAGS", "LDFLAGS", "LD_PRELOAD", "PYTHONPATH"):
        env.pop(k, None)
    return env


def build(root=REPO):
    os.makedirs(os.path.join(root, "build"), exist_ok=True)
    lock_dir = os.environ.get("TMPDIR", "/tmp")
    with open(os.path.join(lock_dir, "verif-build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(root)


def _build(root):
    state_path = os.path.join(root, "build/source-hashes.json")

    def save(state):
        os.makedirs(os.path.join(root, "build"), exist_ok=True)
        with open(state_path, "w") as f:
            json.dump(state, f, indent=1)

    def g(pattern):
        return [os.path.join(root, p) for p in glob.glob(pattern, root_dir=root, recursive=True)]

    def remove_products(stem):
        for path in (
            [os.path.join(root, stem + ".c")]
            + g(stem + ".*.so")
            + g(f"build/lib.*/{stem}.*.so")
            + g(f"build/temp.*/{stem}.o")
        ):
            if os.path.exists(path):
                os.remove(path)

    new = sources(root)
    try:
        with open(state_path) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = {}
    changed = {p for p in new.keys() | old.keys() if new.get(p) != old.get(p)}
    stems = [p[:-4] for p in new if p.endswith(".pyx")]
    if not changed and all(g(s + ".*.so") for s in stems):
        return True, "up to date"
    for so in glob.glob("a_sync/**/*.so", root_dir=root, recursive=True):
        stem = os.path.join(os.path.dirname(so), os.path.basename(so).split(".")[0])
        if not os.path.exists(os.path.join(root, stem + ".pyx")):
            remove_products(stem)
    if any(not p.endswith(".pyx") for p in changed):
        shutil.rmtree(os.path.join(root, "build"), ignore_errors=True)
        for s in stems:
            remove_products(s)
        save({})
    else:
        for p in changed:
            remove_products(p[:-4])
        save({p: h for p, h in old.items() if p not in changed})
    r = subprocess.run(
        [PY, "setup.py", "-q", "build_ext", "--inplace", "-j", str(os.cpu_count() or 1)],
        cwd=root,
        env=build_env(),
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )
    if r.returncode == 0:
        save(new)
        return True, "built"
    return False, r.stdout[-4000:]


def asan_runtime():
    return subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()


def build_asan(dest):
    """An out-of-tree copy of the package with every extension compiled with AddressSanitizer."""
    os.makedirs(dest, exist_ok=True)
    for name in ("setup.py", "README.md", "pyproject.toml", "requirements.txt"):
        p = os.path.join(REPO, name)
        if os.path.exists(p):
            shutil.copy(p, dest)
    shutil.copytree(
        os.path.join(REPO, "a_sync"),
        os.path.join(dest, "a_sync"),
        ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"),
        dirs_exist_ok=True,
    )
    env = build_env()
    env["CFLAGS"] = "-fsanitize=address,undefined -fno-omit-frame-pointer -O1 -g1 -w"
    env["LDFLAGS"] = "-fsanitize=address,undefined"
    env["CC"] = "gcc"
    r = subprocess.run(
        [PY, "setup.py", "-q", "build_ext", "--inplace", "-j", str(os.cpu_count() or 1)],
        cwd=dest,
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )
    return r.returncode == 0, r.stdout[-4000:]


if __name__ == "__main__":
    ok, msg = build()
    print(msg)
    sys.exit(0 if ok else 2)
