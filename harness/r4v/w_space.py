"""Random histories on single spaces (grids and continuous spaces, local and shared), judged against a dictionary.

Each rank of the lane runs its own history on its own part; nothing is synchronised here.
"""
import gc
import math
import random as pyrandom
import sys
import weakref

from repast4py import core
from repast4py import space as r4s
from repast4py.space import BorderType, BoundingBox, ContinuousPoint, DiscretePoint, OccupancyType

from . import geo


class Ag(core.Agent):
    pass


class DPt(DiscretePoint):
    pass


class CPt(ContinuousPoint):
    pass


class DPtNew(DiscretePoint):
    """A point with a constructor of its own."""
    def __new__(cls, x, y, z=0):
        return super().__new__(cls)


class CPtNew(ContinuousPoint):
    def __new__(cls, x, y, z=0.0):
        return super().__new__(cls)

    def __init__(self, x, y, z=0.0):
        super().__init__(x, y, z)
        self.note = [x]


def coords(pt):
    return tuple(pt.coordinates.tolist())


class H:
    def __init__(self, cx):
        self.cx, P = cx, cx.profile
        crng = cx.rng
        self.kind = crng.choice(P.get("classes", ["Grid", "CSpace", "SGrid", "SCSpace"]))
        if cx.size > 1 and not self.kind.startswith("S"):
            self.kind = "S" + self.kind
        self.cont = "CSpace" in self.kind
        self.shared = self.kind.startswith("S")
        self.nd = crng.choice(P.get("dims", [1, 2, 2, 3]))
        self.periodic = crng.random() < 0.5
        self.single = crng.random() < P.get("p_single", 0.4)
        scale = crng.choice(P.get("scales", [3, 4, 8, 20]))
        mins, exts = [0, 0, 0], [0, 0, 0]
        procs = geo.dims_create(cx.size, self.nd)
        far = P.get("far") or crng.random() < 0.2
        for d in range(self.nd):
            exts[d] = procs[d] * 2 + crng.randint(1, scale)
            if crng.random() < 0.6:
                mins[d] = crng.choice([crng.randint(-30, 30), crng.randint(-30, 30), -10 ** 6, 10 ** 6 + 1, 2 ** 24 + 1, -2 ** 31 - 3, 2 ** 33]) if far else crng.randint(-30, 30)
        if far and crng.random() < 0.3:
            for d in range(self.nd):
                exts[d] = crng.choice([1 * procs[d] + 1, 1000, 10 ** 6, 2 ** 31 + 7])
        if far and cx.size == 1 and crng.random() < 0.1:
            exts[crng.randrange(self.nd)] = 1
        self.gb = geo.Bounds(mins, exts)
        self.threshold = crng.choice([1, 1, 2, 3, 5, 20, 100])
        bt = BorderType.Periodic if self.periodic else BorderType.Sticky
        ot = OccupancyType.Single if self.single else OccupancyType.Multiple
        buf = crng.randint(0, 1)
        cx.config(kind=self.kind, n=cx.size, gb=repr(self.gb), periodic=self.periodic, single=self.single, threshold=self.threshold)
        b = self.gb.box()
        if self.kind == "Grid":
            self.s = r4s.Grid("g", b, bt, ot)
        elif self.kind == "CSpace":
            self.s = r4s.ContinuousSpace("c", b, bt, ot, self.threshold)
        elif self.kind == "SGrid":
            self.s = r4s.SharedGrid("g", b, bt, ot, buf, cx.comm)
        else:
            self.s = r4s.SharedCSpace("c", b, bt, ot, buf, cx.comm, self.threshold)
        self.rng = pyrandom.Random(cx.case_seed * 977 + cx.rank) if cx.size > 1 else crng
        self.ags = {}          # uid -> object
        self.inside = {}       # uid -> location or None
        self.at = {}           # location -> [uid] in order of arrival
        self.nid = 0
        self.used = set()
        self.idpool = self.rng.choice([[0, 1, 2], [0, 1, 2, -1, 2 ** 32, 2 ** 62], list(range(8))])
        self.reuse = (DPt if not self.cont else CPt)(0, 0, 0)
        self.visited = []

    # ------------------------------------------------------------------ points
    def pt(self, p):
        if self.rng.random() < 0.4 and hasattr(self.reuse, "_reset_from_array"):
            import numpy as np
            a = np.array(p, dtype=np.float64 if self.cont else np.int64)
            self.reuse._reset_from_array(a)
            return self.reuse
        return self.rng.choice([ContinuousPoint, ContinuousPoint, CPt, CPtNew] if self.cont else [DiscretePoint, DiscretePoint, DPt, DPtNew])(*p)

    def rand_pt(self):
        rng, gb = self.rng, self.gb
        r = rng.random()
        if self.visited and r < 0.3:
            q = rng.choice(self.visited)
            if r < 0.07:         # right beside a location that was visited
                q, d = list(q), rng.randrange(gb.nd)
                if self.cont:
                    q[d] += rng.choice([-1, 1]) * rng.choice([math.ulp(q[d]), 4 * math.ulp(q[d]), 1e-12, 1e-9, 1e-7, 1e-6, 1e-4])
                else:
                    q[d] += rng.choice([-1, 1])
                q = tuple(q)
            return q
        p = [0, 0, 0]
        for d in range(3):
            if d >= gb.nd:
                p[d] = 0 if rng.random() < 0.95 else rng.choice([-1, 1, 7])
                if self.cont:
                    p[d] = float(p[d])
                continue
            lo, e = gb.mins[d], gb.exts[d]
            x = lo + rng.randrange(e)
            k = rng.random()
            if k < 0.2:
                x = rng.choice([lo, lo + e - 1])
            elif k < 0.3:
                x = rng.choice([lo - 1, lo + e, lo - e, lo + 2 * e, lo - e - 1, lo + 2 * e - 1])
            elif k < 0.4:
                x = x + rng.choice([-1, 1]) * e * rng.choice([1, 2, 3, 10, 1000])
            elif k < 0.43 and not self.cont:      # any 64 bit integer
                x = rng.choice([2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1, -2 ** 53 - 1, rng.randint(-2 ** 63, 2 ** 63 - 1), rng.randint(2 ** 53, 2 ** 55)])
            if self.cont:
                f = rng.random()
                if f < 0.35:
                    x = x + rng.choice([0.0, 0.25, 0.5, 0.75])
                elif f < 0.45:
                    x = x + rng.choice([1e-9, -1e-9, 1e-12, -1e-12, 1 - 1e-9, 1 - 1e-12, 5e-9])
                elif f < 0.5:
                    x = math.nextafter(float(x), rng.choice([-math.inf, math.inf]))
                elif f < 0.55:
                    x = rng.choice([math.nextafter(float(lo + e), -math.inf), lo + e - 1e-8, lo + e - 5e-9, -1e-17, 1e-17, 5e-324])
                elif f < 0.85:
                    x = x + rng.random()
                x = float(x)
            p[d] = x
        return tuple(p)

    def expect(self, p):
        """Checks on a result given a requested point; returns a predicate message or None."""

    def check_border(self, p, got):
        cx, gb = self.cx, self.gb
        for d in range(3):
            g = got[d]
            if d >= gb.nd:
                cx.check(g == 0, "an unused dimension has a coordinate", p, got)
                continue
            lo, e = gb.mins[d], gb.exts[d]
            hi = lo + e
            cx.check(lo <= g < hi, "a location is outside the bounds of its space", "asked", p, "got", got, gb)
            if not self.cont:
                exp = geo.wrap1(p[d], lo, e) if self.periodic else geo.clamp_int(p[d], lo, e)
                cx.check(g == exp, "the borders give the wrong location", "asked", p, "got", got, gb, "periodic" if self.periodic else "sticky")
            elif self.periodic:
                if lo <= p[d] < hi:
                    tol = 4 * math.ulp(max(abs(lo), abs(hi), e))
                else:
                    tol = 8 * math.ulp(max(abs(p[d]), abs(lo), abs(hi)))
                df = math.fmod(g - p[d], e)
                df = min(abs(df), e - abs(df))
                cx.check(df <= tol, "the borders give the wrong location", "asked", repr(p), "got", repr(got), gb, "periodic")
                if lo <= p[d] < hi and p[d] - lo > tol and hi - p[d] > tol:
                    cx.check(abs(g - p[d]) <= tol, "a coordinate inside the bounds was changed", repr(p), repr(got), gb)
            else:
                if p[d] < lo:
                    cx.check(g == lo, "the borders give the wrong location", "asked", repr(p), "got", repr(got), gb, "sticky")
                elif p[d] >= hi:
                    cx.check(hi - g <= max(1e-6, 4 * math.ulp(float(max(abs(hi), abs(lo))))), "the borders give the wrong location", "asked", repr(p), "got", repr(got), gb, "sticky")
                elif hi - p[d] <= 2e-8:
                    cx.check(abs(g - p[d]) <= max(3e-8, 4 * math.ulp(float(max(abs(hi), abs(lo))))), "a coordinate inside the bounds was changed", repr(p), repr(got), gb)
                else:
                    cx.check(g == p[d], "a coordinate inside the bounds was changed", repr(p), repr(got), gb)
        inb = all(lo <= p[d] < lo + e for d, (lo, e) in enumerate(zip(gb.mins, gb.exts)) if d < gb.nd)
        cx.stats["obs_moves_inside" if inb else "obs_moves_wrapped" if self.periodic else "obs_moves_clamped"] += 1

    # ------------------------------------------------------------------ operations
    def step(self):
        rng, cx, s = self.rng, self.cx, self.s
        k = rng.random()
        if k < 0.12 and len(self.ags) < self.maxpool or not self.ags:
            # identities often differ in one element only
            while True:
                uid = (rng.choice(self.idpool) if rng.random() < 0.7 else self.nid, rng.randint(0, 2), rng.choice([cx.rank, cx.rank, 0, 1, 2 ** 31]))
                self.nid += 1
                if uid not in self.used:
                    break
            self.used.add(uid)
            a = Ag(*uid)
            self.ags[uid] = a
            if rng.random() < 0.9:
                cx.op("add", uid)
                s.add(a)
                self.inside[uid] = None
            return
        uid = rng.choice(list(self.ags))
        a = self.ags[uid]
        if k < 0.20:
            if uid in self.inside:
                cx.op("remove", uid)
                s.remove(a)
                self.leave(uid)
                del self.inside[uid]
                if rng.random() < 0.4:
                    del self.ags[uid]
            elif rng.random() < 0.5:
                cx.op("remove absent", uid)
                s.remove(a)
            else:
                cx.op("add again", uid)
                s.add(a)
                self.inside[uid] = None
            return
        if k < 0.23 and uid in self.inside:
            cx.op("add twice", uid)
            s.add(a)
            return
        p = self.rand_pt()
        if uid in self.inside and self.inside[uid] is not None and rng.random() < 0.15:
            q = self.inside[uid]
            p = tuple(q[d] + rng.choice([0, 0, 1, -1]) if d < self.gb.nd else 0 for d in range(3)) if rng.random() < 0.6 else q
            if self.cont:
                p = tuple(float(c) for c in p)
        pt = self.pt(p)
        cx.op("move", uid, p)
        if uid not in self.inside:
            try:
                s.move(a, pt)
            except Exception:
                cx.stats["obs_rejected"] += 1
                return
            cx.fail("an agent that is not in the space was moved", uid, p)
        if self.cont and rng.random() < 0.012 and self.odd_move(uid, a, p):
            return
        occ = self.at_requested(p, uid)
        ret = s.move(a, pt)
        cx.check(coords(pt) == tuple(p), "move changed the point it was given", p, coords(pt))
        if ret is None:
            cx.check(self.single, "a move in a multiple occupancy space was refused", uid, p)
            cx.check(occ is not False, "a move to a free location was refused", uid, p, self.inside[uid])
            cx.stats["obs_refused"] += 1
            return
        got = coords(ret)
        self.check_border(p, got)
        loc = s.get_location(a)
        cx.check(loc is not None and coords(loc) == got, "the location returned by move is not the agent's location", uid, p, got, lambda: loc and coords(loc))
        if self.single:
            others = [u for u in self.at.get(got, []) if u != uid]
            cx.check(not others, "a move put two agents at one location of a single occupancy space", uid, others, got)
        if self.inside[uid] != got:
            self.leave(uid)
            self.inside[uid] = got
            self.at.setdefault(got, []).append(uid)
            self.visited.append(got)
            if len(self.visited) > 12:
                self.visited.pop(0)
            if len(self.at[got]) > 1:
                cx.stats["obs_shared_points"] += 1

    def odd_move(self, uid, a, p):
        """To coordinates that are no numbers, or infinite: refused without effect, or to a location inside."""
        rng, cx, s, gb = self.rng, self.cx, self.s, self.gb
        q = list(p)
        for d in rng.sample(range(gb.nd), rng.randint(1, gb.nd)):
            q[d] = rng.choice([math.nan, math.nan, math.inf, -math.inf])
        before = self.inside[uid]
        cx.op("move to no number", uid, q)
        cx.stats["obs_no_numbers"] += 1
        try:
            ret = s.move(a, ContinuousPoint(*q))
        except Exception:
            ret = None
            cx.stats["obs_no_numbers_refused"] += 1
        loc = s.get_location(a)
        loc = None if loc is None else coords(loc)
        if ret is None:
            cx.check(loc == before, "a refused move changed the agent's location", uid, q, before, loc)
            return True
        got = coords(ret)
        cx.check(loc == got, "the location returned by move is not the agent's location", uid, q, got, loc)
        for d in range(3):
            lo, hi = (gb.mins[d], gb.mins[d] + gb.exts[d]) if d < gb.nd else (0, 1)
            cx.check(lo <= got[d] < hi, "a location is outside the bounds of its space", "asked", q, "got", got, gb)
            if not self.periodic and math.isinf(q[d]):
                cx.check(got[d] == lo if q[d] < 0 else hi - got[d] <= max(1e-6, 4 * math.ulp(float(max(abs(hi), abs(lo))))),
                         "the borders give the wrong location", "asked", q, "got", got, gb, "sticky")
        if self.single:
            cx.check(all(u == uid for u in self.at.get(got, [])), "a move put two agents at one location of a single occupancy space", uid, got)
        if before != got:
            self.leave(uid)
            self.inside[uid] = got
            self.at.setdefault(got, []).append(uid)
            self.visited.append(got)
            del self.visited[:-12]
        return True

    def at_requested(self, p, uid):
        """Is the destination occupied by another agent?  True, False or None (rounding makes it unclear)."""
        if not self.single:
            return False
        if not self.cont:
            q = geo.border_grid(p, self.gb, self.periodic)
            return any(u != uid for u in self.at.get(q, []))
        for q, us in self.at.items():
            if any(u != uid for u in us):
                near = True
                for d in range(self.gb.nd):
                    lo, e = self.gb.mins[d], self.gb.exts[d]
                    df = abs(math.fmod(q[d] - p[d], e)) if self.periodic else abs(q[d] - min(max(p[d], lo), lo + e))
                    if self.periodic:
                        df = min(df, e - df)
                    if df > 1e-7 + 1e-12 * abs(p[d]) + 8 * math.ulp(float(max(abs(lo), abs(lo + e)))):
                        near = False
                        break
                if near:
                    return None
        return False

    def leave(self, uid):
        q = self.inside.get(uid)
        if q is not None:
            self.at[q].remove(uid)
            if not self.at[q]:
                del self.at[q]

    # ------------------------------------------------------------------ oracles
    def chk_views(self):
        cx, s = self.cx, self.s
        P = ContinuousPoint if self.cont else DiscretePoint
        for uid, a in self.ags.items():
            loc = s.get_location(a)
            has = s.contains(a)
            if uid in self.inside:
                cx.check(has, "an agent of the space is not in it", uid)
                q = self.inside[uid]
                cx.check((None if loc is None else coords(loc)) == q, "an agent is not at the location of its last successful move", uid,
                         lambda: loc and coords(loc), "expected", q)
                if self.shared:
                    cx.check(a in s, "an agent of the space is not in it", uid)
            else:
                cx.check(not has and loc is None, "an agent that was removed or never added is in the space", uid, has)
        pts = set(self.at) | set(self.visited)
        for q in list(pts)[:40]:
            self.look(P(*q), q)
        for _ in range(3):
            q = self.rand_pt()
            self.look(P(*q), q)
        # several results in use at the same time, as nested loops have them
        qs = self.rng.sample(sorted(pts), min(len(pts), 5)) + [self.rand_pt()]
        its = [s.get_agents(P(*q)) for q in qs]
        order = list(range(len(qs)))
        self.rng.shuffle(order)
        for i in order:
            exp = self.at.get(tuple(qs[i]), [])
            got = [a.uid for a in its[i]]
            cx.check(sorted(got) == sorted(exp), "the agents reported at a location are not those located there, when other locations are being iterated", qs[i], "reported", got, "expected", exp)
        cx.stats["obs_open_iterators"] += len(qs)
        if self.cont and self.at:
            q = list(self.rng.choice(sorted(self.at)))
            d = self.rng.randrange(self.nd)
            q[d] = math.nextafter(q[d], self.rng.choice([-math.inf, math.inf]))
            self.look(P(*q), tuple(q))
            if self.rng.random() < 0.05:
                q[d] = self.rng.choice([math.nan, math.inf])
                self.look(P(*q), tuple(q))      # nobody is there
                cx.stats["obs_no_number_queries"] += 1
        elif self.nd <= 2 and max(self.gb.exts) < 40:
            for c in self.gb.cells():
                if c not in pts:
                    self.look(P(*c), c)
        cx.stats["obs_views"] += 1

    def look(self, pt, q):
        cx, s = self.cx, self.s
        exp = self.at.get(tuple(q), [])
        got = [a.uid for a in s.get_agents(pt)]
        cx.check(sorted(got) == sorted(exp), "the agents reported at a location are not those located there", q, "reported", got, "expected", exp)
        one = s.get_agent(pt)
        cx.check((one.uid if one is not None else None) == (exp[0] if exp else None),
                 "get_agent does not give the first agent that moved to the location", q, lambda: one and one.uid, exp)
        if one is not None:
            cx.check(one is self.ags[one.uid], "a query returned another object than the agent", q, one.uid)
        if self.shared:
            cx.check(s.get_num_agents(pt) == len(exp), "get_num_agents is wrong", q, s.get_num_agents(pt), exp)
            t = self.rng.randint(0, 2)
            cx.check(s.get_num_agents(pt, t) == sum(1 for u in exp if u[1] == t), "get_num_agents by type is wrong", q, t, exp)
        cx.check(all(b == c or b != b and c != c for b, c in zip(coords(pt), q)), "a query changed the point it was given", q)
        cx.stats["obs_lookups"] += 1

    def chk_query(self, nq):
        if not self.cont:
            return
        cx, s, gb, rng = self.cx, self.s, self.gb, self.rng
        for i in range(nq):
            mins, exts = [0, 0, 0], [0, 0, 0]
            k = rng.random()
            for d in range(self.nd):
                lo, e = gb.mins[d], gb.exts[d]
                if k < 0.15:
                    mins[d], exts[d] = lo, e
                elif k < 0.3:
                    mins[d], exts[d] = lo - rng.randint(0, 3), e + rng.randint(0, 6)
                else:
                    mins[d] = rng.randint(lo - 2, lo + e + 1)
                    exts[d] = rng.randint(1, max(1, e))
                    if self.at and rng.random() < 0.4:
                        c = rng.choice(list(self.at))[d]
                        mins[d] = int(math.floor(c)) - rng.choice([0, 0, 1, exts[d], exts[d] - 1])
            exp = sorted(u for q, us in self.at.items() for u in us
                         if all(mins[d] <= q[d] < mins[d] + exts[d] for d in range(self.nd)))
            got = [a.uid for a in s.get_agents_within(BoundingBox(mins[0], exts[0], mins[1], exts[1], mins[2], exts[2]))]
            if sorted(got) != exp:
                cx.fail("a range query does not give exactly the agents in the box", "box", mins, exts, "missing",
                        [(u, self.inside[u]) for u in sorted(set(exp) - set(got))], "unexpected",
                        [(u, self.inside.get(u)) for u in sorted(set(got) - set(exp))], "reported", len(got), "distinct", len(set(got)))
            cx.stats["checks"] += 1
            cx.stats["obs_queries"] += 1
            cx.stats["obs_query_agents"] += len(exp)
            if exp and len(exp) < len([1 for u in self.inside if self.inside[u] is not None]):
                cx.stats["obs_partial_queries"] += 1
                cx.nontrivial = True


class Mem:
    """Reference count monitors: everything the space holds is given back."""

    def __init__(self, h):
        self.h = h
        self.base = sys.getrefcount
        self.locs = []

    def leak_check(self):
        h, cx = self.h, self.h.cx
        s = h.s
        # references held by the space for an agent: constant while it is in the space
        ags = list(h.ags.items())
        h.ags = {}
        counts = {}
        held, points = [], []
        while ags:
            uid, a = ags.pop()
            rc = sys.getrefcount(a)
            counts.setdefault(uid in h.inside and (h.inside[uid] is not None), set()).add((rc, uid))
            if uid in h.inside:
                loc = s.get_location(a)
                if loc is not None:
                    try:
                        points.append((uid, weakref.ref(loc)))
                    except TypeError:
                        pass
                    points.append((uid, weakref.ref(loc.coordinates)))
                    loc = None
                if cx.rng.random() < 0.5:
                    s.remove(a)
                    h.leave(uid)
                    del h.inside[uid]
                    w = weakref.ref(a)
                    a = None
                    cx.check(w() is None, "an agent that was removed from the space is still referenced", uid)
                    for u, pw in points:
                        if u == uid:
                            cx.check(pw() is None, "the location of a removed agent is still referenced", uid)
                    cx.stats["obs_released"] += 1
                    continue
            held.append((uid, weakref.ref(a), uid in h.inside))
        a = None
        for uid, w, ins in held:
            if ins:
                o = w()
                cx.check(o is not None and (o.id, o.type, o.uid_rank) == uid, "an agent held by the space was released", uid)
                o = None
                cx.stats["obs_kept"] += 1
            else:
                cx.check(w() is None, "an agent that no space holds is still referenced", uid)
        for t, st in counts.items():
            rcs = {r for r, _ in st}
            cx.check(len(rcs) <= 1 or not t, "agents of the space have different reference counts", lambda: sorted(st))
        h.s = s = None
        gc.collect()  # a shared grid is part of a reference cycle
        for uid, w, ins in held:
            cx.check(w() is None, "an agent is still referenced after its space is gone", uid)
            cx.stats["obs_released"] += 1
        for uid, pw in points:
            cx.check(pw() is None, "a location is still referenced after its space is gone", uid)


def misuse(h):
    """Calls with bad arguments: each must raise (or be harmless), never corrupt."""
    rng, cx, s = h.rng, h.cx, h.s
    P = ContinuousPoint if h.cont else DiscretePoint
    bad = [None, 1, "x", (1, 2), object(), P(0, 0, 0), Ag(1, 1, 0), DiscretePoint(1, 1, 1), ContinuousPoint(1., 1., 1.)]
    def call(f, *a):
        cx.stats["obs_misuse"] += 1
        try:
            f(*a)
        except Exception:
            cx.stats["obs_misuse_raised"] += 1
    wrongpt = DiscretePoint(1, 1, 1) if h.cont else ContinuousPoint(1., 1., 1.)
    for _ in range(rng.randint(1, 6)):
        k = rng.randrange(10)
        x, y = rng.choice([b for b in bad if not isinstance(b, Ag)]), rng.choice(bad)
        cx.op("misuse", k, type(x).__name__, type(y).__name__)
        if k == 0:
            call(s.add, x)
        elif k == 1:
            call(s.move, x, y)
        elif k == 2:
            call(s.get_location, x)
        elif k == 3:
            call(s.get_agents, rng.choice([None, 3, (1, 2), wrongpt, Ag(1, 1, 1)]))
        elif k == 4:
            call(s.get_agent, rng.choice([None, 3, (1, 2), wrongpt, Ag(1, 1, 1)]))
        elif k == 5 and h.cont:
            call(s.get_agents_within, rng.choice([None, 3, (1, 2), (1, 2, 3, 4, 5, 6, 7), ("a",) * 6, (1.5,) * 6, (2 ** 70,) * 6]))
        elif k == 6:
            for t in (DiscretePoint, ContinuousPoint):
                call(t)
                call(t, rng.choice(["a", None, 2 ** 70, 1.5, (1,)]), 0, 0)
                call(t, 1, 2, 3, 4)
        elif k == 7:
            for args in ((), (1,), ("a", 1, 1), (1, 1, "b"), (2 ** 70, 1, 1), (1, 2 ** 40, 1), (1, 1, 2 ** 40), (1, 1, -1), (-2 ** 70, 0, 0)):
                call(core.Agent, *args)
        elif k == 8:
            uninitialised(h, call, wrongpt)
        else:
            b = h.gb.box()
            cls = rng.choice([r4s.Grid, r4s.ContinuousSpace])
            extra = (3,) if cls is r4s.ContinuousSpace else ()
            call(cls, "n", rng.choice([None, (1, 2), (1, "a", 0, 0, 0, 0), b]), rng.choice([7, -1, "s", None]), rng.choice([9, 0, "z"]), *extra)
            call(cls, None, b, 0, 0, *extra)
            call(cls)
    # a point's repr, its arrays and comparisons
    p = P(*(tuple(float(rng.randint(-5, 5)) for _ in range(3)) if h.cont else tuple(rng.randint(-5, 5) for _ in range(3))))
    repr(p)
    str(p)
    cc = p.coordinates
    p = None
    cx.check(len(cc) == 3 and all(abs(float(v)) <= 5 for v in cc), "a point's coordinates changed after the point was released")
    # points of two coordinates
    q = (ContinuousPoint if h.cont else DiscretePoint)(3, 4)
    cx.check(coords(q) == (3, 4, 0), "a point with two coordinates is wrong", coords(q))


class _NoInitGrid(r4s.Grid):
    def __init__(self):
        pass


class _NoInitSpace(r4s.SharedCSpace):
    def __init__(self, *a):
        pass


class _NoInitAgent(core.Agent):
    def __init__(self, *a):
        pass


def uninitialised(h, call, wrongpt):
    """Objects whose __init__ did not run, or failed: every use raises."""
    rng = h.rng
    P = ContinuousPoint if h.cont else DiscretePoint
    args = [(), (Ag(1, 1, 0),), (Ag(1, 1, 0), P(1, 1, 0)), (P(1, 1, 0),), (wrongpt,), (P(1, 1, 0), P(2, 1, 0)), ((0, 1, 0, 1, 0, 1),), (P(1, 1, 0), 1),
            (Ag(1, 1, 0), (1, 2, 0)), (Ag(1, 1, 0), wrongpt)]
    cls = rng.choice([r4s.Grid, r4s.ContinuousSpace, r4s.SharedGrid, r4s.SharedCSpace, r4s.GridStickyBorders, r4s.GridPeriodicBorders, r4s.CartesianTopology, _NoInitGrid, _NoInitSpace])
    o = cls() if cls in (_NoInitGrid, _NoInitSpace) else cls.__new__(cls)
    if cls is r4s.Grid and rng.random() < 0.3:
        call(o.__init__, "n", (1, 2), 0, 0)
    for n in dir(o):
        if n.startswith("__"):
            continue
        call(getattr, o, n)
        if not isinstance(getattr(cls, n, None), property):
            try:
                f = getattr(o, n)
            except Exception:
                continue
            if callable(f):
                for a in args:
                    call(f, *a)
    a = _NoInitAgent(1, 2)
    for n in ("uid", "id", "type", "uid_rank", "local_rank"):
        call(getattr, a, n)
    for f in (h.s.add, h.s.remove, h.s.get_location):
        call(f, a)
    call(repr, a)


def iterate_and_change(h):
    """Iterators obtained before a change stay safe and only ever give agents."""
    rng, cx, s = h.rng, h.cx, h.s
    if not h.at:
        return
    q = rng.choice(list(h.at))
    P = ContinuousPoint if h.cont else DiscretePoint
    it = iter(s.get_agents(P(*q)))
    if h.cont and rng.random() < 0.5:
        g = h.gb
        it = iter(s.get_agents_within(BoundingBox(g.mins[0], g.exts[0], g.mins[1], g.exts[1], g.mins[2], g.exts[2])))
    got = 0
    cx.op("iterate", q)
    for a in it:
        got += 1
        cx.check(isinstance(a, Ag) and a.uid == (a.id, a.type, a.uid_rank), "an iterator gives something that is not an agent")
        k = rng.random()
        uid = a.uid
        if k < 0.3 and uid in h.inside:
            s.remove(a)
            h.leave(uid)
            del h.inside[uid]
        elif k < 0.6 and uid in h.inside:
            p = h.rand_pt()
            r = s.move(a, P(*p))
            if r is not None and coords(r) != h.inside[uid]:
                h.leave(uid)
                h.inside[uid] = coords(r)
                h.at.setdefault(coords(r), []).append(uid)
        elif k < 0.7:
            break
        if got > 60:
            break
    cx.stats["obs_iterated"] += got


def case(cx):
    P = cx.profile
    h = H(cx)
    rng = h.rng
    h.maxpool = rng.choice([2, 4, 8, 16, 40])
    n = rng.choice([10, 25, 60, 150])
    orc = P["oracles"]
    every = 1 if h.maxpool <= 8 else 5
    for i in range(n):
        h.step()
        if i % every == 0:
            if "views" in orc:
                h.chk_views()
            if "query" in orc and i % (every * 2) == 0:
                h.chk_query(P.get("nq", 2))
        if "memory" in orc:
            k = rng.random()
            if k < 0.03:
                misuse(h)
            elif k < 0.10:
                iterate_and_change(h)
    if "views" in orc or "memory" in orc:
        h.chk_views()
    if "query" in orc or "memory" in orc:
        h.chk_query(P.get("nq", 2) * 2)
    if "borders" in orc:
        transforms(h)
    if h.inside:
        cx.nontrivial = True
    if "memory" in orc:
        Mem(h).leak_check()


def transforms(h):
    """The grid borders objects agree with the borders of the grids."""
    cx = h.cx
    if h.cont:
        return
    cls = r4s.GridPeriodicBorders if h.periodic else r4s.GridStickyBorders
    b = cls(h.gb.box())
    if not hasattr(b, "_transform"):
        return
    out = DiscretePoint(9, 9, 9)
    for _ in range(20):
        p = h.rand_pt()
        src = DiscretePoint(*p)
        b._transform(src, out)
        h.check_border(p, coords(out))
        cx.check(coords(src) == tuple(p), "transforming a point changed it", p)
        cx.stats["obs_transforms"] += 1
