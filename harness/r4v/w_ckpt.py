"""Schedules checkpointed between ticks, pickled, restored, and compared with the run that went on.

Events are recreated from their metadata. Every event logs its tick and a random draw; what it does next
(schedule, void) is a function of its identity, its number of runs and the model's saved state, so that the
original and the restored run must produce equal logs. Checkpoints and stops happen at ticks of their own.
"""
import math
import os
import pickle
import random as pr
import subprocess
import sys
import warnings

import dill
from repast4py import checkpoint as r4c
from repast4py import random as r4r
from repast4py import schedule as r4s
from repast4py.schedule import PriorityType

PTS = [PriorityType.FIRST, PriorityType.LAST, PriorityType.RANDOM, PriorityType.RANDOM, PriorityType.BY_PRIORITY, PriorityType.BY_PRIORITY]


def noop():
    pass


class Evt:
    def __init__(self, model, i):
        self.model, self.i = model, i

    def __call__(self):
        self.model.fire(self.i)


class End:
    def __init__(self, model, i):
        self.model, self.i = model, i

    def __call__(self):
        self.model.log.append(("end", self.i))


class Model:
    """The part of a model the schedule needs; everything in st is saved and restored by the model itself."""

    def __init__(self, seed, cfg):
        self.cfg = cfg
        self.seed = seed
        self.log = []
        self.handles = {}
        self.st = {"next": 0, "live": {}, "runs": {}, "ends": 0}
        self.on = {}

    def runner(self):
        return r4s.runner()

    def tick(self):
        return max(0.0, self.runner().tick())

    def meta(self, rng, i, kind="evt"):
        m = {"id": i, "kind": kind}
        k = rng.random()
        if k < 0.25:
            m["id"] = lambda e: e.i              # resolved by the library from the event itself
        if k > 0.8:
            m["extra"] = [i, {"x": str(i)}]
        return m

    def add(self, rng, at, interval=None):
        i = self.st["next"]
        self.st["next"] += 1
        pt = rng.choice(PTS)
        kw = {"priority_type": pt, "metadata": self.meta(rng, i)}
        if pt == PriorityType.BY_PRIORITY:
            kw["priority"] = rng.choice([0, 1, 1, 2, -3.5, 10, 1 + 2.0 ** -40, rng.choice([1e300, math.inf, -math.inf, 1e7 + 0.25, 1e7])])
        if self.cfg["tags"] and i % 3 == 0:
            kw["metadata"]["tag"] = "b"
        if self.cfg["ignore"] and i % 4 == 1:
            kw["metadata"]["drop"] = True
        if interval is None:
            ev = self.runner().schedule_event(at, Evt(self, i), **kw)
        else:
            ev = self.runner().schedule_repeating_event(at, interval, Evt(self, i), **kw)
        self.handles[i] = ev
        self.st["live"][i] = interval
        return i

    def end(self, rng):
        i = self.st["ends"]
        self.st["ends"] += 1
        ev = self.runner().schedule_end_event(End(self, i), metadata=self.meta(rng, i, "end"))
        if rng.random() < 0.2:
            ev.void()

    def void(self, i):
        self.handles[i].void()
        self.st["live"].pop(i, None)

    def fire(self, i):
        st = self.st
        n = st["runs"][i] = st["runs"].get(i, 0) + 1
        t = self.runner().tick()
        self.log.append((t, i, int(r4r.default_rng.integers(0, 1 << 30))))
        if st["live"].get(i) is None:
            st["live"].pop(i, None)
        rng = pr.Random(f"{self.seed}.{i}.{n}")
        if n > 12:
            if i in st["live"]:
                self.void(i)
            return
        if rng.random() < self.cfg["act"]:
            for _ in range(rng.randint(1, 2)):
                k = rng.random()
                if st["next"] < self.cfg["max"] and k < 0.6:
                    at = t + rng.choice([0, 0.25, 0.5, 1, 1, 2, 3.25, 7])
                    self.add(rng, at, rng.choice([0.5, 1, 1, 2, 3.25]) if rng.random() < 0.25 else None)
                elif k < 0.85:
                    live = sorted(x for x in st["live"] if x in self.handles)
                    if live:
                        self.void(rng.choice(live))
                elif k < 0.93:
                    self.end(rng)

    # ---------------------------------------------------------------- saving
    def state(self):
        return pickle.loads(pickle.dumps(self.st))


def save(m):
    c = r4c.Checkpoint()
    c.save_random()
    c.save_schedule()
    c.save("model", m.state())
    return c


def restore(comm, blob, seed, cfg, how, probe=None):
    """A new model from a pickled checkpoint. how: dict(stops, tag order, ...)"""
    c = dill.loads(blob)
    m = Model(seed, cfg)
    m.st = c.restore("model", lambda x: x)
    seen = []

    def creator(md):
        if md["kind"] == "end":
            return End(m, md["id"])
        if md["kind"] == "noop":
            return noop
        if how["ignore"] and md.get("drop"):
            return r4c.IGNORE_EVT
        return Evt(m, md["id"])

    def processor(md, ev):
        if md.get("kind") == "evt":
            m.handles[md["id"]] = ev
            seen.append(md["id"])
    tags = how["tags"]
    runner = None
    first = True
    for tg in tags:
        kw = {} if tg == r4c.DEFAULT_TAG else {"tag": tg}
        runner = c.restore_schedule(comm, creator, evt_processor=processor, initialize=first, restore_stop_at=how["stops"], **kw)
        if how.get("between"):
            # other things are scheduled between two partial restores
            for x in range(2):
                runner.schedule_event(how["between"], noop, PriorityType.FIRST, metadata={"kind": "noop", "id": -2})
        first = False
    if how["manual_stop"] is not None:
        runner.schedule_stop(how["manual_stop"])
    c.restore_random()
    for i in list(m.st["live"]):
        if i not in m.handles:
            del m.st["live"][i]
    if probe is not None:
        probe(c, runner, m, seen)
    return m, runner


def program(m, rng, stop):
    for _ in range(rng.randint(0, 18)):
        at = rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(0, 4 * int(stop)) / 4.0, stop + 2])
        m.add(rng, at, rng.choice([0.5, 1, 1, 2, 3.25]) if rng.random() < 0.35 else None)
    for _ in range(rng.choice([0, 0, 1, 3])):
        m.end(rng)
    for i in sorted(m.handles):
        if rng.random() < 0.06:
            m.void(i)


CHILD = """
import sys, pickle
sys.path.insert(0, sys.argv[2])
from r4v import w_ckpt
w_ckpt.child(sys.argv[1])
"""


def child(path):
    from mpi4py import MPI
    d = pickle.load(open(path, "rb"))
    m, runner = restore(MPI.COMM_WORLD, d["blob"], d["seed"], d["cfg"], d["how"])
    runner.execute()
    pickle.dump((m.log, runner.tick()), open(path + ".out", "wb"))


def fresh(cx, blob, how, seed, cfg):
    """The restored run in a process of its own."""
    path = os.path.join(cx.workdir, f"fresh{os.getpid()}")
    pickle.dump({"blob": blob, "seed": seed, "cfg": cfg, "how": how}, open(path, "wb"))
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PMI_", "ORTE_", "PRTE_"))}
    for k in ("OMPI_ALLOW_RUN_AS_ROOT", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"):
        env[k] = "1"
    env["PYTHONHASHSEED"] = str(1 + cx.case_seed % 1000)
    p = subprocess.run([sys.executable, "-c", CHILD, path, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))], env=env, capture_output=True, text=True, timeout=100)
    if not os.path.exists(path + ".out"):
        if p.returncode and "Traceback" in p.stderr and "repast4py" in p.stderr:
            cx.fail("restoring in a fresh process raises", p.stderr[-1500:])
        cx.stats["fresh_failed"] += 1
        return None
    out = pickle.load(open(path + ".out", "rb"))
    os.remove(path)
    os.remove(path + ".out")
    cx.stats["obs_fresh"] += 1
    return out


def compare(cx, want, got, what):
    for k, (a, b) in enumerate(zip(want, got)):
        if a != b:
            cx.fail(what, f"entry {k}: continued run {a}, restored run {b}", "continued", lambda: want[max(0, k - 3):k + 6], "restored", lambda: got[max(0, k - 3):k + 6])
    if len(want) != len(got):
        n = min(len(want), len(got))
        cx.fail(what, f"continued run has {len(want)} entries, restored {len(got)}", lambda: (want[n:n + 6], got[n:n + 6]))
    cx.stats["checks"] += 1


def case(cx):
    rng = cx.rng                           # equal on all ranks
    prog = pr.Random(cx.case_seed * 1009 + cx.rank)
    stop = rng.choice([4, 6, 10, 15, 25])
    seed = cx.case_seed * 31 + cx.rank
    mode = rng.choice(["inside", "inside", "inside", "before", "after", "step"]) if cx.size == 1 else rng.choice(["inside", "inside", "before", "after"])
    late = rng.random() < 0.4
    tags = rng.random() < 0.3
    ignore = rng.random() < 0.25
    stops = rng.random() < 0.5
    at = rng.randrange(0, 4 * stop) / 4.0 + 0.125
    nckp = rng.randint(1, 3) if mode == "inside" else 1
    cfg = {"tags": tags, "ignore": ignore, "act": rng.choice([0, 0.2, 0.4, 0.6]), "max": rng.choice([20, 60, 100])}
    T = stop + 0.375
    cx.config(n=cx.size, stop=T, mode=mode, late=late, tags=tags, ignore=ignore, stops=stops, at=at, **{"act": cfg["act"]})
    cx.op("program", stop, mode, at)

    def new():
        r4r.init((seed * 7 + 3) % (1 << 31))
        r4s.init_schedule_runner(cx.comm)
        m = Model(seed, cfg)
        p = pr.Random(cx.case_seed * 77 + cx.rank)
        program(m, p, stop)
        return m

    saves = []       # [checkpoint or pickle, position in the log]

    def take(m):
        c = save(m)
        saves.append([dill.dumps(c) if not late else c, len(m.log), m.runner().tick()])
        cx.stats["obs_saves"] += 1

    m = new()
    runner = m.runner()
    voided_stop = rng.random() < 0.15
    if voided_stop:
        runner.schedule_stop(stop / 2.0 + 0.0625).void()
    ticks = []
    if mode in ("before", "inside", "after"):
        runner.schedule_stop(T)
    if mode == "before":
        take(m)
    elif mode == "inside":
        ats = sorted({at} | {rng.randrange(0, 4 * stop) / 4.0 + 0.125 for _ in range(nckp - 1)})
        for a in ats:
            # checkpoints themselves are not part of what is restored
            runner.schedule_event(a, lambda: take(m), PriorityType.LAST, metadata={"kind": "evt", "id": -1, "tag": "never"})
    elif mode == "after":
        # a run stopped at this tick, against one that only marks it
        runner.schedule_event(at, lambda: saves.append([None, len(m.log), at]), metadata={"kind": "evt", "id": -1, "tag": "never"})
    if mode == "step":
        k = prog.randint(0, 12)
        for i in range(30):
            if i == k:
                take(m)
            if not runner.schedule.queue or runner.schedule.next_tick() > stop:
                break
            runner.schedule.execute()
        if not saves:
            cx.stats["obs_short"] += 1
            return
    else:
        runner.execute()
        cx.check(runner.tick() == T, "the run does not stop at its stop", runner.tick(), T)
    full = m.log
    if mode == "after":
        m2 = new()
        if voided_stop:
            m2.runner().schedule_stop(stop / 2.0 + 0.0625).void()
        m2.runner().schedule_stop(T)
        # scheduled in the same place, so that everything after it has the same sequence number
        m2.runner().schedule_stop(at)
        m2.runner().execute()
        cx.check(m2.runner().tick() == at, "the run does not stop at its stop", m2.runner().tick(), at)
        # the model's log holds the end events of the stopped run
        n = len([e for e in m2.log if e[0] != "end"])
        compare(cx, full[:n], m2.log[:n], "two equal programs differ before any checkpoint")
        saves[:] = [[dill.dumps(save(m2)), saves[0][1], at]]
        cx.check(n == saves[0][1], "two equal programs differ before any checkpoint", n, saves[0][1])
    for blob, pos, when in saves:
        if late:
            blob = blob if isinstance(blob, bytes) else dill.dumps(blob)
        want = full[pos:]
        how = {"stops": stops, "tags": [r4c.DEFAULT_TAG], "ignore": ignore, "manual_stop": None if stops and mode != "step" else T, "between": None}
        if tags:
            how["tags"] = rng.choice([[r4c.DEFAULT_TAG, "b"], ["b", r4c.DEFAULT_TAG], [r4c.DEFAULT_TAG]])
            if len(how["tags"]) == 2 and rng.random() < 0.5:
                how["between"] = stop + 0.1875       # a tick of its own
        if not stops and mode != "step" and rng.random() < 0.4:
            how["manual_stop"] = T + rng.choice([1, 3])
        partial = ignore or how["tags"] == [r4c.DEFAULT_TAG] and tags
        if partial and cx.profile.get("no_partial"):
            continue

        def probe(c, run, mm, seen):
            cx.check(run.tick() == when or (when < 0 and run.tick() < 0), "the restored schedule is at another tick", run.tick(), when)
            cx.check(len(seen) == len(set(seen)), "an event is restored twice", seen)
            for i in seen:
                ev = mm.handles[i]
                cx.check(ev.metadata.get("id") == i and ev.metadata.get("kind") == "evt", "a restored event has other metadata", i, ev.metadata)
                if "extra" in ev.metadata:
                    cx.check(ev.metadata["extra"] == [i, {"x": str(i)}], "a restored event has other metadata", i, ev.metadata)
                if how["ignore"]:
                    cx.check(not ev.metadata.get("drop"), "an ignored event is restored", i)
                cx.check((ev.metadata.get("tag", r4c.DEFAULT_TAG)) in how["tags"], "an event with another tag is restored", i, ev.metadata, how["tags"])
                cx.stats["obs_restored_events"] += 1

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m3, run3 = restore(cx.comm, blob, seed, cfg, how, probe)
        cx.check(m3.runner() is run3, "the restored runner is not the current one")
        gen2 = None
        if not partial and rng.random() < 0.3 and when < stop:
            # a checkpoint of the restored run
            a2 = rng.choice([x for x in (when + 0.25, when + 1, stop - 0.875, stop) if x > when]) if mode != "after" else stop + 0.1875 / 2
            a2 = int(a2 * 4) / 4.0 + 0.0625
            if a2 > when:
                gen2 = []
                run3.schedule_event(a2, lambda: gen2.append((dill.dumps(save(m3)), len(m3.log))), PriorityType.LAST,
                                    metadata={"kind": "evt", "id": -1, "tag": "never"})
        now = []
        if when >= 0 and rng.random() < 0.5:
            # the saved tick is the current one: what is scheduled for it runs, first and once; the past does not
            kw = rng.choice([{}, {"priority_type": PriorityType.FIRST}, {"priority_type": PriorityType.LAST}, {"priority_type": PriorityType.BY_PRIORITY, "priority": 3.0}])
            mark = {"kind": "evt", "id": -1, "tag": "never"}
            run3.schedule_event(when - rng.choice([0.03125, 1, when]) if when > 0 else -1, lambda: now.append(("past", run3.tick(), len(m3.log))), metadata=dict(mark), **kw)
            run3.schedule_event(when, lambda: now.append(("now", run3.tick(), len(m3.log))), metadata=dict(mark), **kw)
            how["now"] = True
        run3.execute()
        if how.pop("now", None):
            cx.check(now == [("now", when, 0)], "after a restore, an event scheduled for the current tick does not run once, before all later ones, or one scheduled for the past runs", now, when, kw)
            cx.stats["obs_now"] += 1
        if when >= 0 and mode != "step" and not partial and rng.random() < 0.15:
            # a stop at the saved tick: only the end events are left
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m5, run5 = restore(cx.comm, blob, seed, cfg, dict(how, stops=False, manual_stop=when))
            run5.execute()
            cx.check(run5.tick() == when and all(e[0] == "end" for e in m5.log), "a restored run with a stop at the current tick does not stop there", run5.tick(), when, lambda: m5.log[:5])
            cx.stats["obs_stop_now"] += 1
        cx.stats["obs_restores"] += 1
        final = how["manual_stop"] if how["manual_stop"] is not None else T
        cx.check(run3.tick() == final, "the restored run stops at another tick (stops restored when not asked for, or not restored)", run3.tick(), final, how)
        got = m3.log
        if partial:
            # fewer events run: the run differs afterwards; left out events must not run
            known = set(m3.handles)
            for e in got:
                cx.check(e[0] == "end" or e[1] in known, "an event that was left out runs", e)
            cx.stats["obs_partial"] += 1
            continue
        if gen2 is not None and mode != "step":
            pass
        if mode == "step":
            want = [e for e in want]
            got = [e for e in got if e[0] != "end"][:len(want)]
            lim = T
            want = [e for e in want if e[0] <= lim]
        elif final > T:
            # went on beyond: equal up to the old stop
            e0 = [e for e in got if e[0] != "end" and e[0] > T]
            cx.stats["obs_beyond"] += 1
            want = [e for e in want if e[0] != "end"]
            got = [e for e in got if e[0] != "end" and e[0] <= T]
            for e in e0:
                cx.check(e[0] <= final, "an event runs after the stop", e)
        compare(cx, want, got, "the restored run differs from the continued one")
        cx.stats["obs_entries"] += len(want)
        if len(want) > 3:
            cx.nontrivial = True
        if gen2:
            b2, p2 = gen2[0]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m4, run4 = restore(cx.comm, b2, seed, cfg, how)
            run4.execute()
            g3 = m3.log[p2:]
            compare(cx, g3, m4.log, "a restored run checkpointed again and restored differs from the one that went on")
            cx.stats["obs_second"] += 1
        if cx.size == 1 and not partial and mode != "step" and final == T and rng.random() < cx.profile.get("p_fresh", 0.03):
            out = fresh(cx, blob, how, seed, cfg)
            if out is not None:
                compare(cx, want, out[0], "the run restored in a fresh process differs from the continued one")
