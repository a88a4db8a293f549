"""Development aid: tries a planted bug of seeded/<id> in a private mount namespace (a copy of /repo and /verif laid over
the real ones, for this process tree only): demo on the unchanged tree, patch, build, stable tests, demo, the check(s).

try_bug.py ID [--no-tests] [--check P ...] [--seeds 1,2] [--tier quick]
"""
import argparse, json, os, shutil, subprocess, sys, time

ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-demo", action="store_true")
ap.add_argument("--check", nargs="*")
ap.add_argument("--seeds", default="1")
ap.add_argument("--tier", default="quick")
ap.add_argument("--inner")
a = ap.parse_args()
D = f"/verif/seeded/{a.id}"
if not a.inner:
    w = f"/tmp/bug_{a.id}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    subprocess.check_call(["cp", "-a", "/verif", w + "/verif"])
    subprocess.check_call(["cp", "-a", "/opt/vp", w + "/vp"])
    shutil.copytree(D, w + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    shutil.copy(D + "/patch.diff", w + "/patch.diff")
    shutil.copy(D + "/meta.json", w + "/meta.json")
    try:
        r = subprocess.run(["unshare", "-m", sys.executable, os.path.abspath(__file__), *sys.argv[1:], "--inner", w])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    sys.exit(r.returncode)
w = a.inner


def sh(cmd, log=None, timeout=900):
    t = time.time()
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = "timeout", (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
    return rc, out, time.time() - t


for s, d in (("repo", "/repo"), ("verif", "/verif"), ("vp", "/opt/vp")):
    subprocess.check_call(["mount", "--bind", f"{w}/{s}", d])
meta = json.load(open(w + "/meta.json"))
res = {}
os.chdir("/repo")
if not a.no_demo:
    rc, out, t = sh(f"cd /repo && bash {w}/demo/demo.sh", timeout=300)
    print(f"[{a.id}] demo on the unchanged tree: {rc} ({t:.0f}s)", "OK" if rc == 0 else "BAD\n" + out[-3000:], flush=True)
rc, out, _ = sh(f"git apply {w}/patch.diff")
if rc:
    print(f"[{a.id}] patch does not apply", out); sys.exit(1)
rc, out, t = sh("bash /opt/vp/build.sh")
print(f"[{a.id}] build {rc} ({t:.0f}s)", "" if rc == 0 else out[-2000:], flush=True)
if rc:
    sys.exit(1)
if not a.no_demo:
    rc, out, t = sh(f"cd /repo && bash {w}/demo/demo.sh", timeout=300)
    print(f"[{a.id}] demo with the patch: {rc} ({t:.0f}s)", "OK" if rc not in (0, "timeout") else "BAD", "\n      " + out.strip()[-400:].replace("\n", "\n      "), flush=True)
if not a.no_tests:
    rc, out, t = sh(f"bash /opt/vp/test.sh {w}/out.json")
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    pa = set(json.load(open(w + "/out.json"))["passed"])
    miss = [x for x in st if x not in pa]
    print(f"[{a.id}] tests: {len(st) - len(miss)}/{len(st)} ({t:.0f}s)", "OK" if not miss else "BAD " + str(miss[:8]), flush=True)
    sh("git status --short")
for c in (a.check or [meta["property"]]):
    for s in a.seeds.split(","):
        rc, out, t = sh(f"cd /verif && python3 run_check.py {c} --tier {a.tier} --seed {s}")
        v = [x for x in out.splitlines() if x.startswith("VIOLATION")]
        why = [x for x in out.splitlines() if "violat" in x.lower() or "fail" in x.lower()][:4]
        print(f"[{a.id}] check {c} seed {s}: exit {rc} ({t:.0f}s)", "CAUGHT" if rc == 1 and any(f"property={c}" in x for x in v) else "MISSED", v[:1], *why, sep="\n      " if rc else " ", flush=True)
        if rc not in (0, 1):
            print(out[-2500:])
