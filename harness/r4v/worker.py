"""Runs under mpirun: splits the world into lanes (sub-communicators) and runs cases in each lane.

A case is a pure function of (case seed, lane size, profile): every rank of the lane draws the same
random script, keeps the same reference model of the whole distributed system, performs its own share
of the operations on the real library and judges its own view of the result.
"""
import collections
import ctypes
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import random as pyrandom
import signal
import sys
import time
import traceback


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    pass


class Cx:
    """What a case sees."""

    def __init__(self, comm, ctl, profile, stats, beat, workdir):
        self.comm, self.ctl, self.profile, self.stats = comm, ctl, profile, stats
        self.rank, self.size = ctl.rank, ctl.size
        self._beat = beat
        self.workdir = workdir
        self.cache = {}

    def begin(self, case_seed):
        self.case_seed = case_seed
        self.rng = pyrandom.Random(case_seed)
        self.ops = []
        self.conf = None
        self.nontrivial = False
        self.sig = hashlib.blake2b(digest_size=8)

    def op(self, *what):
        """Records one step of the script (identical on all ranks)."""
        s = " ".join(str(w) for w in what)
        self.ops.append(s)
        self.sig.update(s.encode())
        self.stats["ops"] += 1
        self._beat(len(self.ops))

    def config(self, **kw):
        self.conf = kw
        self.sig.update(repr(sorted(kw.items())).encode())

    def check(self, cond, msg, *detail):
        self.stats["checks"] += 1
        if not cond:
            raise Violation(msg, " | ".join(str(d() if callable(d) else d) for d in detail))

    def fail(self, msg, *detail):
        raise Violation(msg, " | ".join(str(d() if callable(d) else d) for d in detail))

    def agree(self, value):
        """Value of rank 0 on all ranks."""
        return self.ctl.bcast(value, root=0)


def case_seed(seed, pid, salt, n, lane, idx):
    h = hashlib.sha256(f"{seed}|{pid}|{salt}|{n}|{lane}|{idx}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def main():
    spec = json.load(open(sys.argv[1]))
    out = spec["outdir"]
    from mpi4py import MPI
    world = MPI.COMM_WORLD
    wr = world.rank
    errf = open(os.path.join(out, f"stacks.{wr}"), "w")
    faulthandler.enable(errf)
    faulthandler.register(signal.SIGUSR1, file=errf, all_threads=True)
    sf = os.open(os.path.join(out, f"state.{wr}"), os.O_RDWR | os.O_CREAT, 0o600)
    os.ftruncate(sf, 512)
    cur = {"lanes": [], "n": 0, "lane": 0, "idx": -1, "case_seed": 0}

    def beat(step):
        s = json.dumps(dict(cur, step=step, t=time.time()))
        os.pwrite(sf, s.encode().ljust(400), 0)

    with open(os.path.join(out, f"pid.{wr}"), "w") as f:
        f.write(str(os.getpid()))
    beat(-1)
    mod = importlib.import_module("r4v." + spec["workload"])
    import repast4py
    want = spec["pkgdir"]
    if not os.path.realpath(repast4py.__file__).startswith(os.path.realpath(want)):
        print("wrong repast4py imported:", repast4py.__file__, file=sys.stderr)
        world.Abort(43)
    if hasattr(mod, "prepare"):
        mod.prepare(spec.get("profile") or {})
    from repast4py import random as rrandom      # imports torch: before the clock starts, and out of the collector's sight
    rrandom.init(1)
    from r4v import cov
    cov.arm()
    gc.collect()
    gc.freeze()
    world.Barrier()
    t0 = time.time()
    stats = collections.Counter()
    sigs = set()
    nontriv = set()
    samples = []
    confs = collections.Counter()

    def record(kind, exc, cx):
        rec = {"kind": kind, "rank": cx.rank if cx else -1, "nranks": cx.size if cx else 0, "wrank": wr,
               "case_seed": getattr(cx, "case_seed", None), "profile": spec.get("profile"), "conf": getattr(cx, "conf", None),
               "ops": getattr(cx, "ops", [])[-60:], "nops": len(getattr(cx, "ops", [])),
               "msg": getattr(exc, "msg", None) or f"{type(exc).__name__}: {exc}",
               "detail": getattr(exc, "detail", None), "trace": traceback.format_exc(limit=-12), "t": time.time()}
        tmp = os.path.join(out, f".viol.{wr}")
        with open(tmp, "w") as f:
            json.dump(rec, f, default=str)
        os.rename(tmp, os.path.join(out, f"viol.{wr}.json"))

    jit = ctypes.CDLL(spec["jitter"])
    jit.r4v_jitter.argtypes = [ctypes.c_uint, ctypes.c_ulonglong]
    jit.r4v_delays.restype = ctypes.c_ulong

    def one(cx, seed):
        cx.begin(seed)
        beat(0)
        # a quarter of the cases on several ranks run with random delays around MPI calls
        p = {0: 600, 1: 4000, 2: 12000}.get(seed // 7 % 10, 0) if cx.size > 1 else 0
        jit.r4v_jitter(p, seed * 31 + cx.rank)
        stats["obs_delayed_cases"] += bool(p) and cx.rank == 0
        try:
            from repast4py import random as rrandom
            rrandom.init(seed % (2 ** 31))
            mod.case(cx)
        except Inconclusive as e:
            record("inconclusive", e, cx)
            world.Abort(44)
        except Violation as e:
            record("violation", e, cx)
            world.Abort(42)
        except BaseException as e:  # the library failed in a supported history (or the harness is wrong)
            record("exception", e, cx)
            world.Abort(42)
        jit.r4v_jitter(0, 1)
        stats["cases"] += 1
        d = cx.sig.digest()
        if cx.rank == 0:
            stats["lane_cases"] += 1
            stats[f"cases_n{cx.size}"] += 1
            sigs.add(d)
            if cx.nontrivial:
                nontriv.add(d)
                if len(samples) < 2:
                    samples.append({"nranks": cx.size, "case_seed": cx.case_seed, "config": cx.conf, "ops": cx.ops[:25],
                                    "ops_total": len(cx.ops)})

    # lanes whose sizes sum to the world size
    if spec.get("replay"):
        rp = spec["replay"]
        world.Barrier()
        cx = Cx(world.Dup(), world.Dup(), spec.get("profile") or {}, stats, beat, spec["workdir"])
        for s in rp["case_seeds"]:
            cur.update(n=world.size, case_seed=s, idx=0)
            one(cx, s)
            gc.collect()
        world.Barrier()
    else:
        epochs = spec["epochs"]
        tot = sum(e.get("weight", 1) for e in epochs)
        for ei, ep in enumerate(epochs):
            lanes = ep["lanes"]
            assert sum(lanes) <= world.size, (lanes, world.size)
            lane, acc = None, 0
            for li, n in enumerate(lanes):
                if acc <= wr < acc + n:
                    lane = li
                acc += n
            comm = world.Split(MPI.UNDEFINED if lane is None else lane, wr)
            dt = spec["budget_s"] * ep.get("weight", 1) / tot
            tend = time.time() + dt
            maxc = ep.get("max_cases", 3000)
            idx = 0
            if comm != MPI.COMM_NULL:
                ctl = comm.Dup()
                prof = dict(spec.get("profile") or {})
                prof.update(ep.get("profile") or {})
                cx = Cx(comm, ctl, prof, stats, beat, spec["workdir"])
                while True:
                    go = None
                    if ctl.rank == 0:
                        go = time.time() < tend and idx < maxc or idx == 0
                    if ctl.size > 1:
                        go = ctl.bcast(go, root=0)
                    if not go:
                        break
                    s = case_seed(spec["seed"], spec["pid"], f"{spec['workload']}{ei if ep.get('profile') else ''}", ctl.size, lane, idx)
                    cur.update(n=ctl.size, lane=lane, idx=idx, case_seed=s, ep=ei)
                    one(cx, s)
                    idx += 1
                    gc.collect()
                ctl.Free()
            cur.update(n=0, case_seed=0, idx=-2)
            beat(0)
            # idle lanes wait without burning the cores
            req = world.Ibarrier()
            while not req.Test():
                time.sleep(0.005)
                beat(0)
            if comm != MPI.COMM_NULL:
                comm.Free()
    stats["obs_delays"] = jit.r4v_delays()
    res = world.gather((dict(stats), [s.hex() for s in sigs], [s.hex() for s in nontriv], samples, cov.result()), root=0)
    if wr == 0:
        st = collections.Counter()
        allsig, allnt, samp = set(), set(), []
        hit, total = {}, {}
        for a, b, c, d, (h, t) in res:
            for x, y in ((hit, h), (total, t)):
                for k, v in y.items():
                    x.setdefault(k, set()).update(v)
            for k, v in a.items():
                st[k] = max(st[k], v) if k.startswith("max_") else st[k] + v
            allsig.update(b)
            allnt.update(c)
            samp.extend(d)
        with open(os.path.join(out, "result.json"), "w") as f:
            json.dump({"stats": dict(st), "distinct": len(allsig), "distinct_nontrivial": len(allnt), "samples": samp[:3],
                       "hit": {k: sorted(v) for k, v in hit.items()}, "lines": {k: sorted(v) for k, v in total.items()}, "wall": time.time() - t0}, f)
    world.Barrier()
    os._exit(0) if spec.get("fast_exit", True) and MPI.Finalize() is None else None


if __name__ == "__main__":
    main()
