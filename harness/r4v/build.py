"""Builds /repo's current working tree into a scratch directory (never inside /repo).

The Python sources and the two native extensions are staged under
/verif/.cache/<hash>/repast4py; the hash covers every source byte plus the flags, so any change
of the tree gives a fresh build.  The extension list is taken from setup.py (executed with a
stand-in for setuptools.setup) so that files added or moved by a refactoring are still built.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time

REPO = os.environ.get("R4V_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CACHE = os.path.join(VERIF, ".cache")
PY = "/opt/venv/bin/python"

FLAVORS = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
}


class BuildError(Exception):
    pass


def _ext_list():
    code = r'''
import json, sys, os
os.environ.setdefault("CC", "mpicxx.openmpi")
exts = []
import setuptools
setuptools.setup = lambda *a, **k: exts.extend(k.get("ext_modules", []))
src = open("setup.py").read()
exec(compile(src, "setup.py", "exec"), {"__name__": "__main__", "__file__": os.path.abspath("setup.py")})
print("R4V" + json.dumps([[e.name, list(e.sources), [str(i) for i in e.include_dirs],
   list(e.extra_compile_args or []), [list(m) if isinstance(m, tuple) else m for m in (e.define_macros or [])]] for e in exts]))
'''
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CC="mpicxx.openmpi", OMPI_CXX="g++")
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PY, "-c", code], cwd=REPO, env=env, capture_output=True, text=True, timeout=120)
    for line in r.stdout.splitlines():
        if line.startswith("R4V"):
            import json
            return json.loads(line[3:])
    raise BuildError("setup.py could not be read: " + r.stderr[-800:])


def _tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    root = os.path.join(REPO, "src")
    for d, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__" and not x.endswith(".egg-info"))
        for f in sorted(files):
            if f.endswith((".so", ".pyc", ".o")):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    with open(os.path.join(REPO, "setup.py"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def _prune(keep):
    try:
        ds = [os.path.join(CACHE, x) for x in os.listdir(CACHE) if os.path.isdir(os.path.join(CACHE, x))]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[12:]:
            if d != keep and time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(flavor="plain"):
    """Returns the directory to put on PYTHONPATH."""
    os.makedirs(CACHE, exist_ok=True)
    key = _tree_hash(flavor + " ".join(FLAVORS[flavor])) + "-" + flavor
    out = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, key + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "OK")):
            os.utime(out)
            return out
        if os.path.isdir(out):
            shutil.rmtree(out)
        pkg = os.path.join(out, "repast4py")
        shutil.copytree(os.path.join(REPO, "src", "repast4py"), pkg,
                        ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.o"))
        suffix = ".cpython-312-x86_64-linux-gnu.so"
        ompi = "/usr/lib/x86_64-linux-gnu/openmpi"
        base = ["-I" + sysconfig.get_paths()["include"].replace("/usr/local", "/usr"), "-I/usr/include/python3.12",
                f"-I{ompi}/include", "-fPIC", "-w"] + FLAVORS[flavor]
        tmp = os.path.join(out, "obj")
        os.makedirs(tmp)
        jobs, links = [], []
        for name, sources, incs, cargs, macros in _ext_list():
            objs = []
            for s in sources:
                # compile the staged copy: every source lives under src/
                staged = os.path.join(out, os.path.relpath(s, "src")) if s.startswith("src/") else os.path.join(REPO, s)
                o = os.path.join(tmp, name.replace(".", "_") + "_" + os.path.basename(s) + ".o")
                objs.append(o)
                defs = ["-D" + m[0] + (("=" + m[1]) if len(m) > 1 and m[1] is not None else "") for m in macros]
                jobs.append(["g++"] + base + list(cargs) + defs + ["-I" + i for i in incs] + ["-c", staged, "-o", o])
            links.append(["g++", "-shared"] + [f for f in FLAVORS[flavor] if f.startswith("-fsanitize")] + objs +
                         [f"-L{ompi}/lib", "-lmpi_cxx", "-lmpi", "-o",
                          os.path.join(out, *name.split(".")) + suffix])
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r in ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs):
                if r.returncode != 0:
                    raise BuildError(r.stderr[-3000:])
        for c in links:
            r = subprocess.run(c, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError(r.stderr[-3000:])
        shutil.rmtree(tmp, ignore_errors=True)
        open(os.path.join(out, "OK"), "w").close()
    _prune(out)
    return out


def jitter():
    """The library that is preloaded to delay MPI calls (harness/jitter.c)."""
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, "harness", "jitter.c")
    with open(src, "rb") as f:
        out = os.path.join(CACHE, "jitter-" + hashlib.sha256(f.read()).hexdigest()[:16] + ".so")
    with open(out + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            ompi = "/usr/lib/x86_64-linux-gnu/openmpi"
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", f"-I{ompi}/include", src, f"-L{ompi}/lib", "-lmpi", "-o", out + ".tmp"], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError(r.stderr[-3000:])
            os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(fl, build(fl), round(time.time() - t, 1))
