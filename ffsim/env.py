"""
Build step: compiles the shim, and makes sure the extension modules that the
simulation imports come from /repo's current working tree.

If the .so files in /repo/src match the stamp of the last build and the stamp
matches the sources, /repo/src is imported as it is.  Otherwise the tree is
copied to a scratch folder and the extensions are built there.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FFSIM_REPO", "/repo")
PY = "/opt/venv/bin/python"
CACHE = os.path.join(VERIF, ".cache")
GENERATED = {f"src/finalfusion/subword/{n}.c"
             for n in ("explicit_indexer", "hash_indexers", "ngrams")}


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def native_inputs():
    """{relative path: sha256} of everything the extensions are built from."""
    found = {}
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for name in sorted(files):
            if name.endswith((".pyx", ".pxd", ".pxi", ".c", ".h")):
                rel = os.path.relpath(os.path.join(base, name), REPO)
                if rel not in GENERATED:
                    found[rel] = _sha(os.path.join(base, name))
    for name in ("setup.py", "setup.cfg", "pyproject.toml", "README.md", "MANIFEST.in"):
        path = os.path.join(REPO, name)
        if os.path.exists(path):
            found[name] = _sha(path)
    return found


def _stamp_ok(inputs):
    stamp = os.path.join(REPO, "build", ".vp-stamp")
    try:
        with open(stamp) as f:
            ins, outs = f.read().split("\n--\n")
        want = dict(reversed(l.split("  ", 1)) for l in ins.strip().splitlines())
        if want != inputs:
            return False
        outs = [l.split("  ", 1) for l in outs.strip().splitlines()]
        return len(outs) >= 3 and all(_sha(os.path.join(REPO, p)) == h for h, p in outs)
    except (OSError, ValueError):
        return False


def _tree_key():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for name in sorted(files):
            if name.endswith((".so", ".pyc")):
                continue
            path = os.path.join(base, name)
            rel = os.path.relpath(path, REPO)
            if rel in GENERATED:
                continue
            h.update(rel.encode() + b"\0" + _sha(path).encode() + b"\n")
    h.update(_sha(os.path.join(REPO, "setup.py")).encode())
    return h.hexdigest()[:24]


def build_source():
    """Returns the directory to import finalfusion from."""
    inputs = native_inputs()
    if _stamp_ok(inputs):
        return os.path.join(REPO, "src")
    dest = os.path.join(CACHE, "tree-" + _tree_key())
    src = os.path.join(dest, "src")
    if os.path.exists(os.path.join(dest, ".done")):
        return src
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="build-", dir=CACHE)
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(tmp, "src"),
                        ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.egg-info"))
        for rel in GENERATED:
            path = os.path.join(tmp, rel)
            if os.path.exists(path):
                os.unlink(path)
        for name in ("setup.py", "setup.cfg", "pyproject.toml", "README.md", "MANIFEST.in"):
            if os.path.exists(os.path.join(REPO, name)):
                shutil.copy2(os.path.join(REPO, name), tmp)
        env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
        env.pop("LD_PRELOAD", None)
        r = subprocess.run([PY, "setup.py", "build_ext", "--inplace"], cwd=tmp, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
            raise SystemExit("ffsim: building the extensions failed")
        open(os.path.join(tmp, ".done"), "w").close()
        try:
            os.rename(tmp, dest)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return src


def build_shim():
    """Returns the path of the compiled shim."""
    source = os.path.join(VERIF, "ffsim", "shim.c")
    out = os.path.join(CACHE, f"shim-{_sha(source)[:16]}.so")
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = f"{out}.{os.getpid()}"
        subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-U_FORTIFY_SOURCE", "-o", tmp, source,
                        "-ldl"], check=True)
        os.rename(tmp, out)
    return out


def scratch_base():
    if os.environ.get("FFSIM_SCRATCH"):
        return os.environ["FFSIM_SCRATCH"]
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"


def worker_env(src, shim, hashseed="0"):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("PYTHON", "LC_", "LANG"))}
    env.update(LD_PRELOAD=shim, FFSIM_SHIM=shim, FFSIM_SRC=src,
               PYTHONPATH=f"{src}:{VERIF}", PYTHONHASHSEED=hashseed,
               PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MALLOC_PERTURB_="170",  # uninitialised memory is the same in every execution
               LANG="C.UTF-8", LC_ALL="C.UTF-8")
    return env


if __name__ == "__main__":
    print(build_shim())
    print(build_source())
