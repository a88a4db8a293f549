"""Random dynamic schedules, judged online: every event that runs must be allowed to run next.

The oracle keeps its own list of what is pending (tick, priority, scheduling order) and never predicts
the random choices: it only rejects what no choice allows. Programs of all ranks of a lane run together;
the merged, time-stamped logs decide lock step.
"""
import math
import time

from repast4py import schedule as r4s
from repast4py.schedule import PriorityType

FIRST, LAST, RANDOM, PRIO = "F", "L", "R", "P"
PT = {FIRST: PriorityType.FIRST, LAST: PriorityType.LAST, RANDOM: PriorityType.RANDOM, PRIO: PriorityType.BY_PRIORITY}


class E:
    __slots__ = ("id", "at", "pt", "pr", "idx", "interval", "ev", "void", "runs", "acts", "where")

    def __repr__(self):
        return f"#{self.id}@{self.at}{self.pt}{self.pr if self.pt == PRIO else ''}{'+' + str(self.interval) if self.interval else ''}"


class Sched:
    def __init__(self, cx, P, prog_rng):
        self.cx, self.P, self.rng = cx, P, prog_rng
        self.runner = r4s.init_schedule_runner(cx.comm)
        self.seq = 0
        self.pending = {}     # id -> E, what must still run
        self.all = {}
        self.log = []
        self.tick = -1.0
        self.running = None
        self.ended = 0
        self.endq = []
        self.stop_at = None
        self.stopped_in = None
        self.budget = P.get("max_events", 150)
        self.trace = []
        self.left = 0
        # some programs use ticks a tiny (dyadic, so exact) distance apart
        self.fine = [0, 0, 2.0 ** -10, 2.0 ** -11, 2.0 ** -13, 2.0 ** -20, 2.0 ** -40] if prog_rng.random() < P.get("p_fine", 0.25) else None

    def off(self):
        if self.fine is None:
            return 0
        d = self.rng.choice(self.fine)
        if d:
            self.cx.stats["obs_fine_ticks"] += 1
        return d

    def note(self, *w):
        self.trace.append(" ".join(str(x) for x in w))

    # ------------------------------------------------------------ scheduling
    def add(self, at, pt, pr=None, interval=None, acts=(), meta=None):
        """Schedules a new event; at in the past: must be ignored."""
        e = E()
        e.id = self.seq
        self.seq += 1
        e.at, e.pt, e.pr, e.interval, e.acts = at, pt, pr, interval, acts
        e.idx, e.void, e.runs = e.id, False, 0
        # where this event was added, relative to the tick being executed
        kw = {}
        if pt != RANDOM or self.rng.random() < 0.5:
            kw["priority_type"] = PT[pt]
        if pt == PRIO:
            if pr is not None:
                kw["priority"] = pr
            else:
                self.cx.stats["obs_no_priority"] += 1
        elif self.rng.random() < 0.1:
            kw["priority"] = self.rng.choice([1.0, -5.0])     # ignored
        if self.rng.random() < 0.2:
            kw["metadata"] = {"k": e.id}
        if self.rng.random() < 0.3:
            fn = r4s.create_arg_evt(lambda a, b=None: self.fire(b), e.id, b=e)
        else:
            fn = lambda: self.fire(e)
        if interval is None:
            e.ev = self.runner.schedule_event(at, fn, **kw)
        else:
            try:
                e.ev = self.runner.schedule_repeating_event(at, interval, fn, **kw)
            except Exception:
                if interval > 0:
                    raise
                self.cx.stats["obs_backward_refused"] += 1
                return None
        self.note("sched", e)
        self.all[e.id] = e
        if at >= max(self.tick, 0 if self.tick < 0 else self.tick):
            self.pending[e.id] = e
        else:
            self.cx.stats["obs_past_events"] += 1
            e.void = True          # in the past: never runs
        if self.running is not None and at == self.tick:
            self.cx.stats["obs_same_tick"] += 1
        return e

    def void(self, e):
        self.note("void", e)
        e.ev.void()
        e.void = True
        self.pending.pop(e.id, None)
        self.cx.stats["obs_voided"] += 1

    # ------------------------------------------------------------ the oracle
    def fire(self, e):
        cx = self.cx
        t0 = time.monotonic_ns()
        cx.stats["obs_events"] += 1
        tick = self.runner.tick()
        self.note("run", e, "tick", tick)
        if self.left > 0:
            cx.fail("an event runs after the end events", e)
        if e.id not in self.pending:
            cx.fail("an event that was voided, was in the past or has already run is run", e, "voided" if e.void else "", "runs", e.runs, lambda: self.trace[-15:])
        cx.check(tick == e.at, "an event runs at another tick than the one it is scheduled for", e, "tick", tick, lambda: self.trace[-15:])
        cx.check(tick >= self.tick, "ticks run backwards", tick, self.tick)
        self.tick = tick
        if self.stop_at is not None:
            cx.check(tick <= self.stop_at, "an event runs after the tick of the stop", e, self.stop_at)
        # nothing earlier may be pending, and e must be allowed next in its tick
        now = []
        for o in self.pending.values():
            if o.at < tick:
                cx.fail("an event was skipped", o, "tick is now", tick, lambda: self.trace[-15:])
            if o.at == tick and o is not e:
                now.append(o)
        bad = None
        for o in now:
            if o.pt == FIRST and (e.pt != FIRST or o.idx < e.idx):
                bad = o
            elif e.pt == LAST and (o.pt != LAST or o.idx < e.idx):
                bad = o
            elif e.pt == PRIO and o.pt == PRIO and e.pr is not None and o.pr is not None and (o.pr, o.idx) < (e.pr, e.idx):
                bad = o
            if bad is not None:
                cx.fail("events of a tick run in the wrong order", e, "runs before", bad, lambda: self.trace[-15:])
        if now:
            cx.stats["obs_ordered"] += 1
        e.runs += 1
        del self.pending[e.id]
        if e.interval is not None and e.interval > 0:       # otherwise it would be due again in the past: never
            e.at = e.at + e.interval
            self.pending[e.id] = e
            if e.runs > 1:
                cx.stats["obs_repeats"] += 1
        self.running = e
        if self.P.get("delay") and self.rng.random() < self.P["delay"]:
            time.sleep(self.rng.choice([0.0002, 0.001, 0.003]))
        for a in e.acts:
            a(self, e)
        if self.P.get("act") and self.rng.random() < self.P["act"]:
            self.random_action(e)
        self.running = None
        self.log.append((tick, t0, time.monotonic_ns()))
        if e.interval is not None and not e.void and e.runs > 40:
            self.void(e)

    def random_action(self, e):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            if self.seq > self.budget:
                return
            k = rng.random()
            if k < 0.35:
                self.rand_add(self.tick)              # same tick
            elif k < 0.6:
                self.rand_add(self.tick + rng.choice(self.steps()) + self.off())
            elif k < 0.67:
                self.rand_add(self.tick - (rng.choice(self.steps()) if self.fine is None else rng.choice(self.fine[2:] + self.steps())))     # in the past
            elif k < 0.68 and self.P.get("repeat", True):
                self.rand_add(self.tick + rng.choice(self.steps()), rng.choice([-0.25, -1.0, math.nan]))      # refused, or without repetition
            elif k < 0.75 and self.P.get("repeat", True):
                self.rand_add(self.tick + rng.choice([0] + self.steps()) + self.off(), rng.choice([0.25, 0.5, 1, 1, 2, 3.5]) + self.off())
            elif k < 0.93:
                live = [o for o in self.all.values() if not o.void and (o.id in self.pending)]
                if live:
                    same = [o for o in live if o.at == self.tick]
                    o = rng.choice(same) if same and rng.random() < 0.5 else rng.choice(live)
                    self.void(o)
            elif k < 0.97 and e.interval is not None and not e.void:
                self.void(e)         # an event that ends itself
                self.cx.stats["obs_void_self"] += 1
            else:
                self.end_event()

    def steps(self):
        st = self.P.get("steps_at", [0.25, 0.5, 1, 1, 1.5, 2, 3, 7])
        return st if self.fine is None else st + self.fine[2:]

    def rand_add(self, at, interval=None, acts=()):
        rng = self.rng
        pt = rng.choice(self.P.get("pts", [FIRST, LAST, RANDOM, RANDOM, PRIO, PRIO, PRIO]))
        pr = None
        if pt == PRIO:
            pr = rng.choice([0, 1, 1, 2, 2.5, -1, -3.5, 10, float(rng.randint(-5, 5)), 1 + 2.0 ** -40, -1e-12,
                             rng.choice([1e300, -1e300, math.inf, -math.inf, 1e7 + 0.25, 1e7]), None])
        return self.add(at, pt, pr, interval, acts)

    def end_event(self):
        i = len(self.endq)
        self.endq.append({"void": False})
        rec = self.endq[i]
        rec["ev"] = self.runner.schedule_end_event(lambda: self.fire_end(i))
        if self.rng.random() < 0.15:
            rec["ev"].void()
            rec["void"] = True

    def fire_end(self, i):
        cx = self.cx
        want = [j for j, r in enumerate(self.endq) if not r["void"]]
        cx.check(self.left < len(want) and want[self.left] == i, "end events do not run once each in the order scheduled", i, "after", self.left, want)
        self.left += 1
        cx.stats["obs_end_events"] += 1
        self.check_done()
        if len(self.endq) < 8 and self.rng.random() < 0.2:
            self.end_event()              # an end event may schedule further ones
            cx.stats["obs_end_adds_end"] += 1

    def check_done(self):
        """At the end of the run: nothing due was left out."""
        for o in self.pending.values():
            if o.at <= self.final:
                self.cx.fail("an event due before or at the stop never ran", o, "stop at", self.final, lambda: self.trace[-15:])

    # ------------------------------------------------------------ running
    def run(self):
        cx = self.cx
        self.runner.execute()
        self.check_done()
        cx.check(self.left == len([1 for r in self.endq if not r["void"]]), "not all end events ran", self.left)


def shuffle_case(cx):
    """Random events really are interleaved at random, anywhere among prioritised ones."""
    rng = cx.rng
    runner = r4s.init_schedule_runner(cx.comm)
    nr, npr = rng.choice([(3, 0), (4, 0), (1, 2), (2, 2), (3, 1), (2, 3)])
    ticks = 300 if npr == 0 else 100
    got = {}
    cx.config(kind="shuffle", nr=nr, np=npr)
    evs = [("r", i) for i in range(nr)] + [("p", i) for i in range(npr)]
    rng.shuffle(evs)

    def mk(e):
        return lambda: got.setdefault(runner.tick(), []).append(e)
    dyn = rng.random() < 0.3
    for t in range(1, ticks + 1):
        def sched(at=t):
            for e in evs:
                if e[0] == "r":
                    runner.schedule_event(at, mk(e))
                else:
                    runner.schedule_event(at, mk(e), PriorityType.BY_PRIORITY, e[1])
        if dyn:
            runner.schedule_event(t, sched, PriorityType.FIRST)
        else:
            sched()
    runner.schedule_stop(ticks)
    runner.execute()
    cx.check(sorted(got) == list(range(1, ticks + 1)), "ticks are missing", len(got))
    for t, l in got.items():
        cx.check(sorted(l) == sorted(evs), "a tick did not run its events exactly once", t, l)
        cx.check([e for e in l if e[0] == "p"] == [("p", i) for i in range(npr)], "prioritised events out of order", t, l)
    for i in range(nr):
        pos = [l.index(("r", i)) for l in got.values()]
        if npr == 0:
            # 300 trials with p >= 1/4: fewer than 25 has a probability below 1e-12
            cx.check(all(pos.count(k) >= ticks / nr / 3 for k in range(nr)), "random events are not shuffled evenly: how often an event runs at each position",
                     i, [pos.count(k) for k in range(nr)], "in", ticks, "ticks")
        else:
            pp = [[e for e in l if e[0] == "p" or e == ("r", i)].index(("r", i)) for l in got.values()]
            cx.check(set(pp) == set(range(npr + 1)), "random events are not interleaved anywhere among prioritised ones", i, sorted(set(pp)))
    cx.stats["obs_shuffles"] += 1
    cx.nontrivial = True


def case(cx):
    import random as pr
    P = cx.profile
    rng = cx.rng
    if P.get("shuffle") and cx.size == 1 and rng.random() < P["shuffle"]:
        shuffle_case(cx)
        return
    prog = pr.Random(cx.case_seed * 1009 + cx.rank)        # this rank's own program
    s = Sched(cx, P, prog)
    stop = rng.choice([3, 5, 6.5, 10, 10, 20, 30.25])
    mode = rng.choice(P.get("stops", ["before", "before", "event", "same", "call"]))
    s.final = stop
    cx.config(n=cx.size, stop=stop, mode=mode)
    cx.op("stop", stop, mode)
    if cx.rank == 0 or True:
        cx.sig.update(str(cx.case_seed).encode())
    ne = prog.randint(*P.get("initial", [0, 25]))
    if P.get("idle") and prog.random() < P["idle"]:
        ne = 0
    acts = []

    def add_stop():
        if mode == "before":
            s.runner.schedule_stop(stop)
        elif mode == "call":
            s.add(stop, prog.choice([FIRST, RANDOM, PRIO, LAST]), 0, None, [lambda q, e: q.runner.stop()])
        elif mode == "same":
            s.add(stop, prog.choice([FIRST, RANDOM, PRIO, LAST]), 0, None, [lambda q, e: q.runner.schedule_stop(stop)])
        else:
            # from inside an event that every rank runs at the same tick
            at = pr.Random(cx.case_seed).choice([0, 0.5, 1, stop / 2])
            s.add(at, prog.choice([FIRST, RANDOM, PRIO, LAST]), 0, None, [lambda q, e: q.runner.schedule_stop(stop)])
        s.fixed = len(s.all)

    # further stops: those at later ticks, or voided, make no difference
    more = pr.Random(cx.case_seed + 3)
    others = [(stop + more.choice([0, 0.25, 1, 1, 5]), False) for _ in range(more.choice([0, 0, 0, 1, 2]))]
    others += [(stop * more.choice([0, 0.25, 0.5, 1]), True) for _ in range(more.choice([0, 0, 0, 1]))]
    more.shuffle(others)
    others = [(at, void, more.random() < 0.5) for at, void in others]

    def other_stops(first):
        for at, void, k in others:
            if k == first:
                ev = s.runner.schedule_stop(at)
                cx.stats["obs_other_stops"] += 1
                if void:
                    ev.void()

    early = prog.random() < 0.5
    other_stops(True)
    if early:
        add_stop()
    for _ in range(ne):
        at = prog.choice([0, 0, 1, 1, 1, 2, 2, 3, prog.randint(0, int(stop) + 3), prog.randrange(0, 4 * int(stop)) / 4.0, stop, stop + 1, -1])
        s.rand_add(at + (s.off() if at >= 0 else 0), prog.choice([0.25, 0.5, 1, 1, 2, 3.5]) + s.off() if P.get("repeat", True) and prog.random() < P.get("p_repeat", 0.2) else None)
    if not early:
        add_stop()
    other_stops(False)
    for _ in range(prog.choice([0, 0, 1, 3])):
        s.end_event()
    # events that must stay: those that stop the run
    keep = [e for e in s.all.values() if e.acts]
    orig_void = s.void

    def void(e):
        if e not in keep:
            orig_void(e)
    s.void = void
    if P.get("prevoid"):
        for e in list(s.pending.values()):
            if prog.random() < 0.08:
                s.void(e)
    cx.stats["ops"] += ne
    s.run()
    cx.stats["obs_runs"] += 1
    cx.check(s.runner.tick() == stop, "the run did not stop at the tick of the stop", s.runner.tick(), stop)
    if s.seq > 4:
        cx.nontrivial = True
    if cx.size > 1:
        logs = cx.ctl.allgather(s.log)
        lockstep(cx, logs)


def lockstep(cx, logs):
    ticks = {}
    for r, l in enumerate(logs):
        for t, a, b in l:
            x = ticks.get(t)
            if x is None:
                ticks[t] = [a, b, r, r, 1]
            else:
                if a < x[0]:
                    x[0], x[2] = a, r
                if b > x[1]:
                    x[1], x[3] = b, r
                x[4] += 1
    prev = None
    for t in sorted(ticks):
        a, b, ra, rb, _ = ticks[t]
        if prev is not None:
            pt, pb, prb = prev
            cx.check(a >= pb, "a rank runs ahead: it starts a tick while another rank is still in an earlier one",
                     f"tick {t} starts on rank {ra}", f"tick {pt} still runs on rank {prb}", f"{(pb - a) / 1e6} ms earlier")
            cx.stats["obs_tick_steps"] += 1
            if ra != prb:
                cx.stats["obs_cross_steps"] += 1
        if prev is None or b > prev[1]:
            prev = (t, b, rb)
