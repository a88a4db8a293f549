"""Runs one check: builds the tree, runs its jobs under mpirun, watches them, and gives the verdict."""
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build as bld
from . import mpienv

VERIF = bld.VERIF
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")


class Err(Exception):
    """The check could not decide (exit 2 or 3)."""


def _asan_env():
    lib = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(["g++", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
    return {"LD_PRELOAD": os.path.realpath(lib) + ":" + os.path.realpath(ub),
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1:handle_segv=1:detect_stack_use_after_return=0:allocator_may_return_null=1:log_path=%s",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77:log_path=%s",
            "PYTHONMALLOC": "malloc"}


class Job:
    def __init__(self, spec, nprocs, flavor="plain", hashseed="0", env=None):
        self.spec, self.nprocs, self.flavor, self.hashseed, self.env = spec, nprocs, flavor, hashseed, env or {}


def run_job(job, scratch, stall_s=60, hard_s=None):
    """Returns dict(status=ok|violation|crash|hang|inconclusive, ...)."""
    pkg = bld.build(job.flavor)
    out = tempfile.mkdtemp(prefix="job", dir=scratch)
    work = os.path.join(out, "work")
    tmp = os.path.join(out, "t")
    os.makedirs(work)
    os.makedirs(tmp)
    spec = dict(job.spec, outdir=out, pkgdir=pkg, workdir=work)
    sp = os.path.join(out, "spec.json")
    extra = dict(job.env)
    jit = bld.jitter()
    spec["jitter"] = jit
    with open(sp, "w") as f:
        json.dump(spec, f)
    pre = ["env", "LD_PRELOAD=" + jit]
    if job.flavor == "asan":
        a = _asan_env()
        a["LD_PRELOAD"] += ":" + jit
        lp = os.path.join(out, "san")
        pre = ["env"] + [f"{k}={v.replace('%s', lp)}" for k, v in a.items()]
    env = mpienv.make(pkg, HARNESS, tmp, job.hashseed, extra)
    cmd = ["mpirun.openmpi", "-n", str(job.nprocs)] + pre + [bld.PY, "-m", "r4v.worker", sp]
    t0 = time.time()
    log = open(os.path.join(out, "log"), "w")
    p = subprocess.Popen(cmd, env=env, cwd=work, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
    hard = hard_s or (spec.get("budget_s", 30) * 3 + 240)
    hang = None
    while p.poll() is None:
        time.sleep(0.1)
        now = time.time()
        last = 0
        for s in glob.glob(os.path.join(out, "state.*")):
            last = max(last, os.stat(s).st_mtime)
        # a stuck lane keeps its old heartbeat while idle lanes keep beating: look at every busy rank
        stuck = _stuck(out, now, stall_s)
        if glob.glob(os.path.join(out, "viol.*.json")) and now - t0 > 5:
            # give MPI_Abort a moment, then make sure
            t1 = time.time()
            while p.poll() is None and time.time() - t1 < 10:
                time.sleep(0.05)
            break
        if stuck or now - t0 > hard:
            hang = stuck or {"hard": True}
            for f in glob.glob(os.path.join(out, "pid.*")):
                try:
                    os.kill(int(open(f).read()), signal.SIGUSR1)
                except (OSError, ValueError):
                    pass
            time.sleep(1.0)
            break
    if p.poll() is None:
        _kill(p, out)
    rc = p.wait()
    log.close()
    txt = open(os.path.join(out, "log"), errors="replace").read()
    res = {"rc": rc, "out": out, "wall": time.time() - t0, "log": txt[-3000:], "job": job}
    viols = []
    for f in sorted(glob.glob(os.path.join(out, "viol.*.json"))):
        try:
            viols.append(json.load(open(f)))
        except ValueError:
            pass
    viols.sort(key=lambda v: v["t"])
    san = "".join(open(f, errors="replace").read() for f in sorted(glob.glob(os.path.join(out, "san.*"))))
    if san:
        res["san"] = san[:6000]
    if viols:
        inc = [v for v in viols if v["kind"] == "inconclusive"]
        real = [v for v in viols if v["kind"] != "inconclusive"]
        res["status"] = "violation" if real else "inconclusive"
        res["viol"] = (real or inc)[0]
        res["viols"] = viols
        return res
    if hang:
        res["status"] = "hang"
        res["where"] = hang
        res["stacks"] = "\n".join(f"--- rank file {os.path.basename(f)}\n" + open(f, errors="replace").read()[:2500]
                                  for f in sorted(glob.glob(os.path.join(out, "stacks.*"))))
        return res
    rf = os.path.join(out, "result.json")
    if rc == 0 and os.path.exists(rf):
        res["status"] = "ok"
        res["result"] = json.load(open(rf))
        return res
    res["status"] = "crash"
    res["where"] = _states(out)
    res["stacks"] = "\n".join(open(f, errors="replace").read()[:2500] for f in sorted(glob.glob(os.path.join(out, "stacks.*"))))
    return res


def _kill(p, out):
    pids = []
    for f in glob.glob(os.path.join(out, "pid.*")):
        try:
            pids.append(int(open(f).read()))
        except ValueError:
            pass
    try:
        os.killpg(p.pid, signal.SIGTERM)
    except OSError:
        pass
    for _ in range(30):
        if p.poll() is not None:
            break
        time.sleep(0.1)
    for pid in pids:
        try:
            if f"r4v.worker" in open(f"/proc/{pid}/cmdline").read().replace("\0", " "):
                os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def _states(out):
    r = {}
    for s in sorted(glob.glob(os.path.join(out, "state.*"))):
        try:
            r[s.rsplit(".", 1)[1]] = json.loads(open(s).read().rstrip("\0 \n"))
        except ValueError:
            pass
    return r


def _stuck(out, now, stall_s):
    for k, st in _states(out).items():
        if st.get("n") and now - st["t"] > stall_s:
            return st
    return None


def replay_job(rec, budget=60):
    spec = {"pid": rec["property"], "tier": "quick", "seed": 0, "budget_s": budget, "workload": rec["workload"],
            "profile": rec["profile"], "replay": {"case_seeds": rec["case_seeds"]}}
    return Job(spec, rec["nranks"], rec.get("flavor", "plain"), env=rec.get("env"))


def save_replay(pid, rec):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}-{rec['case_seeds'][-1]:x}-n{rec['nranks']}.json")
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    return path


def mk_epochs(plan):
    return plan


class Check:
    """Accumulates jobs' results into one verdict and evidence file."""

    def __init__(self, pid, cfg, tier, seed):
        self.pid, self.cfg, self.tier, self.seed = pid, cfg, tier, seed
        self.t0 = time.time()
        self.stats, self.distinct, self.nontrivial, self.samples = {}, 0, 0, []
        self.known = []
        self.hit, self.lines = {}, {}

    def evidence(self, violations):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": {"evaluations": int(self.stats.get("lane_cases", 0)), "distinct_nontrivial": int(self.nontrivial),
                           "rule": self.cfg["rule"], "samples": self.samples[:3], "distinct_cases": int(self.distinct),
                           "observed": {k: v for k, v in sorted(self.stats.items())},
                           "library_lines_executed": {k: f"{len(set(self.hit.get(k, ())) & v)} of {len(v)}" for k, v in sorted(self.lines.items())
                                                      if k in self.hit}},
              "assumptions": self.cfg.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def _absorb(chk, r):
    res = r["result"]
    for k, v in res["stats"].items():
        chk.stats[k] = max(chk.stats.get(k, 0), v) if k.startswith("max_") else chk.stats.get(k, 0) + v
    chk.distinct += res["distinct"]
    chk.nontrivial += res["distinct_nontrivial"]
    chk.samples += res["samples"]
    for x, y in ((chk.hit, res.get("hit", {})), (chk.lines, res.get("lines", {}))):
        for k, v in y.items():
            x.setdefault(k, set()).update(v)
    if os.environ.get("R4V_LINES"):
        with open(os.environ["R4V_LINES"], "a") as f:
            f.write(json.dumps([chk.pid, res.get("hit", {}), res.get("lines", {})]) + "\n")


def report(chk, rec, msg):
    path = save_replay(chk.pid, rec)
    chk.stats.setdefault("lane_cases", 1)
    chk.samples = chk.samples or [{"violating": rec.get("summary")}]
    chk.evidence(1)
    print(msg)
    print(f"VIOLATION property={chk.pid} replay={path}")
    sys.stdout.flush()
    return 1


def judge(chk, j, r, scratch, confirm=True):
    """Turns a job result into an exit code, or None to go on."""
    pid = chk.pid
    base = {"property": pid, "workload": j.spec["workload"], "flavor": j.flavor, "env": j.env}
    if r["status"] == "ok":
        _absorb(chk, r)
        return None
    if r["status"] == "violation":
        v = r["viol"]
        rec = dict(base, nranks=v["nranks"], profile=v["profile"], case_seeds=[v["case_seed"]], kind=v["kind"],
                   summary=v["msg"], detail=v["detail"], ops=v["ops"], conf=v["conf"], rank=v["rank"], trace=v["trace"])
        ep = None
        msg = f"{pid}: {v['kind']} on rank {v['rank']} of {v['nranks']}: {v['msg']}\n  {str(v['detail'])[:1500]}\n  config: {v['conf']}\n  last steps:\n    " + "\n    ".join(v["ops"][-12:])
        if v["kind"] == "exception":
            msg += "\n" + v["trace"][-1800:]
        return report(chk, rec, msg)
    if r["status"] == "inconclusive":
        print("INCONCLUSIVE:", r["viol"]["msg"], r["viol"]["detail"])
        return 3
    # crash or hang: reproduce it before believing it
    where = r.get("where") or {}
    sts = [where] if "case_seed" in where else [s for s in where.values() if isinstance(s, dict) and s.get("case_seed")]
    cands = []
    for s in sts:
        key = (s["n"], s["case_seed"])
        if s.get("n") and key not in [c[:2] for c in cands]:
            cands.append((s["n"], s["case_seed"], s))
    if r.get("san"):
        c = cands[0] if cands else (j.nprocs, 0, {})
        # which lane crashed cannot be told from the report alone: replay every candidate
        for n, cs, s in cands:
            rec = dict(base, nranks=n, profile=_prof(j, s), case_seeds=[cs], kind="sanitizer", summary=r["san"][:1500])
            rr = run_job(replay_job(rec), scratch)
            if rr["status"] != "ok":
                rec["summary"] = (rr.get("san") or r["san"])[:3000]
                return report(chk, rec, f"{pid}: sanitizer report\n{rec['summary'][:2500]}")
        rec = dict(base, nranks=c[0], profile=_prof(j, c[2]), case_seeds=[c[1]], kind="sanitizer", summary=r["san"][:3000])
        return report(chk, rec, f"{pid}: sanitizer report\n{r['san'][:2500]}")
    if not cands:
        print("ERROR: job failed before the first case:\n", r["log"][-2500:], r.get("stacks", "")[:1500])
        return 2
    for n, cs, s in cands:
        rec = dict(base, nranks=n, profile=_prof(j, s), case_seeds=[cs], kind=r["status"], where=s)
        rr = run_job(replay_job(rec), scratch, stall_s=45, hard_s=150)
        if rr["status"] == "violation":
            v = rr["viol"]
            rec.update(summary=v["msg"], detail=v["detail"], ops=v["ops"])
            return report(chk, rec, f"{pid}: {v['msg']} {v['detail']}")
        if rr["status"] in ("crash", "hang"):
            rec["summary"] = f"{rr['status']} in a supported history"
            rec["stacks"] = rr.get("stacks", "")[:6000]
            return report(chk, rec, f"{pid}: the library {'crashes' if rr['status'] == 'crash' else 'never finishes'} in case {cs:x} on {n} ranks\n{rr.get('stacks', '')[:2500]}\n{rr['log'][-800:]}")
    # not reproduced by a single case: the damage may come from earlier cases of the process; run the job again
    r2 = run_job(j, scratch)
    if r2["status"] == "violation":
        return judge(chk, j, r2, scratch)
    if r2["status"] in ("crash", "hang"):
        n, cs, s = cands[0]
        rec = dict(base, nranks=n, profile=_prof(j, s), case_seeds=[cs], kind=r["status"], summary=f"{r['status']} twice in the same job", where=s,
                   stacks=r2.get("stacks", "")[:6000])
        return report(chk, rec, f"{pid}: the library {'crashed' if r['status'] == 'crash' else 'did not finish'} in two runs of the same job\n{r2.get('stacks', '')[:2500]}")
    print(f"INCONCLUSIVE: a {r['status']} did not reproduce (status now {r2['status']}); first log:\n{r['log'][-1500:]}\n{r.get('stacks', '')[:2000]}")
    return 3


def _prof(j, s):
    prof = dict(j.spec.get("profile") or {})
    eps = j.spec.get("epochs") or []
    if "ep" in s and s["ep"] < len(eps):
        prof.update(eps[s["ep"]].get("profile") or {})
    return prof


def twin_specs(pid, seed, tier, budget, epochs, profile, outs, replay=None):
    """Two jobs of the same cases under different conditions."""
    r = []
    for i, out in enumerate(outs):
        os.makedirs(out, exist_ok=True)
        spec = {"pid": pid, "tier": tier, "seed": seed * 1000, "budget_s": budget, "workload": "w_det", "profile": dict(profile, out=out, noise=bool(i)), "epochs": epochs}
        n = max(sum(e["lanes"]) for e in epochs) if epochs else 0
        if replay:
            spec["replay"] = {"case_seeds": replay["case_seeds"]}
            n = replay["nranks"]
        r.append(Job(spec, n, "plain", ["0", "4242"][i],
                     [{}, {"PYTHONMALLOC": "malloc", "MALLOC_PERTURB_": "165", "MALLOC_TOP_PAD_": "1234567", "MALLOC_ARENA_MAX": "1"}][i]))
    return r


def twin_diff(outs):
    """First difference between the traces of the two runs, or None; and what was compared."""
    seen = {"twin_ranks": 0, "twin_lines": 0}
    cases = set()
    a, b = (set(os.listdir(o)) for o in outs)
    for f in sorted(a & b):
        x, y = (json.load(open(os.path.join(o, f))) for o in outs)
        n, cs, r = f[:-5].split("-")
        cases.add((n, cs))
        seen["twin_ranks"] += 1
        seen["twin_lines"] += len(x["trace"])
        if x["trace"] != y["trace"]:
            k = next((k for k, (p, q) in enumerate(zip(x["trace"], y["trace"])) if p != q), min(len(x["trace"]), len(y["trace"])))
            return {"n": int(n), "case_seed": int(cs, 16), "rank": int(r), "line": k, "conf": x["conf"],
                    "first": x["trace"][k:k + 2], "second": y["trace"][k:k + 2], "before": x["trace"][max(0, k - 2):k]}, seen
    seen["twin_cases"] = len(cases)
    return None, seen


def twins(budget_q, budget_t, epochs, profile):
    def fn(chk, scratch):
        rounds = 1 if chk.tier == "quick" else 3
        for rd in range(rounds):
            outs = [os.path.join(scratch, f"tw{rd}{i}") for i in "ab"]
            for j in twin_specs(chk.pid, chk.seed + 100 * rd, chk.tier, budget_q if chk.tier == "quick" else budget_t, epochs, profile, outs):
                had = chk.distinct, chk.nontrivial, len(chk.samples)
                r = run_job(j, scratch)
                code = judge(chk, j, r, scratch)
                shutil.rmtree(r["out"], ignore_errors=True)
                if code is not None:
                    return code
                if j.spec["profile"]["noise"]:
                    # the same cases again
                    chk.distinct, chk.nontrivial = had[0], had[1]
                    del chk.samples[had[2]:]
            d, seen = twin_diff(outs)
            for k, v in seen.items():
                chk.stats["obs_" + k] = chk.stats.get("obs_" + k, 0) + v
            chk.stats["checks"] = chk.stats.get("checks", 0) + seen["twin_lines"]
            if d:
                rec = {"property": chk.pid, "workload": "w_det", "flavor": "plain", "twin": True, "nranks": d["n"], "profile": profile, "case_seeds": [d["case_seed"]], "summary": "two runs with the same seed differ", "detail": d}
                return report(chk, rec, f"{chk.pid}: two runs with the same seed differ on rank {d['rank']} of {d['n']} at observation {d['line']}\n  config: {d['conf']}\n  before {d['before']}\n  first  {d['first']}\n  second {d['second']}")
            for o in outs:
                shutil.rmtree(o, ignore_errors=True)
        return None
    return fn


def twin_replay(rec, scratch):
    for i in range(3):
        outs = [os.path.join(scratch, f"rp{i}{x}") for x in "ab"]
        for j in twin_specs(rec["property"], 0, "quick", 60, [], rec["profile"], outs, rec):
            r = run_job(j, scratch, stall_s=60, hard_s=240)
            if r["status"] != "ok":
                print(f"replay: {r['status']} {r.get('viol')}")
                return True
        d, _ = twin_diff(outs)
        if d:
            print("replay:", json.dumps(d, indent=1))
            return True
    return False


def main(pid, cfg, tier, seed, replay=None):
    scratch = tempfile.mkdtemp(prefix="r4v", dir=os.environ.get("R4V_TMP", "/tmp"))
    chk = Check(pid, cfg, tier, seed)
    try:
        if replay:
            rec = json.load(open(replay))
            if rec.get("twin"):
                if twin_replay(rec, scratch):
                    print(f"VIOLATION property={rec['property']} replay={replay}")
                    return 1
                print("replay: no violation")
                return 0
            r = run_job(replay_job(rec), scratch, stall_s=60, hard_s=240)
            if r["status"] == "ok":
                print("replay: no violation")
                return 0
            v = r.get("viol", {})
            print(f"replay: {r['status']} {v.get('msg')} {v.get('detail')}\n", "\n".join(v.get("ops", [])[-25:]), v.get("trace", "")[-1500:], r.get("san", "")[:3000], r.get("stacks", "")[:3000])
            print(f"VIOLATION property={rec['property']} replay={replay}")
            return 1
        jobs = []
        for jc in cfg["jobs"]:
            t = dict(jc.get("quick", {}))
            if tier == "thorough":
                t.update(jc.get("thorough", {}))
            if t.get("skip"):
                continue
            for rep in range(t.get("repeat", 1)):
                spec = {"pid": pid, "tier": tier, "seed": seed * 1000 + rep, "budget_s": t["budget_s"], "workload": jc["workload"],
                        "profile": jc.get("profile", {}), "epochs": t["epochs"]}
                n = max(sum(e["lanes"]) for e in t["epochs"])
                jobs.append(Job(spec, n, jc.get("flavor", "plain"), jc.get("hashseed", "0"), jc.get("env")))
        # build first, so that build time is not charged to a job
        for fl in sorted({j.flavor for j in jobs}):
            bld.build(fl)
        for j in jobs:
            r = run_job(j, scratch)
            code = judge(chk, j, r, scratch)
            shutil.rmtree(r["out"], ignore_errors=True)
            if code is not None:
                return code
        for fn in cfg.get("post", []):
            code = fn(chk, scratch)
            if code is not None:
                return code
        missing = [k for k in cfg.get("must", []) if not chk.stats.get(k)]
        if missing:
            print("INCONCLUSIVE: monitors never reached:", missing, chk.stats)
            chk.evidence(0)
            return 3
        chk.evidence(0)
        print(f"{pid}: held on {chk.stats.get('lane_cases', 0)} cases ({chk.nontrivial} distinct non-trivial), "
              f"{chk.stats.get('ops', 0)} steps, {chk.stats.get('checks', 0)} checks, {time.time() - chk.t0:.1f} s")
        return 0
    except bld.BuildError as e:
        print("ERROR: build failed:", e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
