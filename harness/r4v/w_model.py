"""Whole models (M01): schedule, spaces, networks, value layers, births, deaths and logs together, distributed over the
ranks, against the same model computed by a few lines that know of no ranks at all.

What an agent does depends only on what it is documented to see: agents and values within the buffer, the ends of its
edges, its own state. So the outcome must be that of the undivided model, whatever the number of ranks.
"""
import csv
import itertools
import os
import shutil
from dataclasses import dataclass

import dill
from mpi4py import MPI
import torch
from repast4py import context as r4ctx, core, schedule as r4s
from repast4py import logging as r4l
from repast4py.checkpoint import Checkpoint
from repast4py import space as r4space
from repast4py.network import DirectedSharedNetwork, UndirectedSharedNetwork
from repast4py.schedule import PriorityType
from repast4py.space import BorderType, BoundingBox, ContinuousPoint, DiscretePoint, OccupancyType
from repast4py.value_layer import ReadWriteValueLayer, SharedValueLayer

from . import geo
from .w_vl import prepare  # noqa: F401  (compiles the neighbour functions before the clock starts)

M64 = (1 << 64) - 1


def mix(*vs):
    x = 0x9E3779B97F4A7C15
    for v in vs:
        x ^= v & M64
        x = x * 0xBF58476D1CE4E5B9 & M64
        x ^= x >> 29
        x = x * 0x94D049BB133111EB & M64
        x ^= x >> 32
    return x >> 1


class Ag(core.Agent):
    def __init__(self, id, type, rank, num, val):
        super().__init__(id, type, rank)
        self.num, self.val = num, val

    def save(self):
        return (self.uid, self.num, self.val)

    def update(self, num, val):
        self.num, self.val = num, val


class Restore:
    def __init__(self, cached):
        self.cache = {} if cached else None

    def __call__(self, d):
        uid, num, val = d
        if self.cache is not None:
            a = self.cache.get(uid)
            if a is None:
                a = self.cache[uid] = Ag(*uid, num, val)
            a.num, a.val = num, val
            return a
        return Ag(*uid, num, val)


@dataclass
class Counts:
    count: int = 0
    vsum: int = 0
    vmax: int = 0
    vmin: int = 0
    edges: int = 0


class Conf:
    """The model, the same on all ranks: nothing in it but sizes and rates."""

    def __init__(self, cx):
        rng, n = cx.rng, cx.size
        self.kind = rng.choice(["none", "g", "g", "c", "c", "gc", "cg"])
        self.nd = rng.choice([1, 2, 2, 2, 3]) if "c" not in self.kind else rng.choice([2, 2, 3])
        self.periodic = rng.random() < 0.5
        self.b = rng.randint(1, 3)
        self.vkind = None
        self.v2 = False
        if self.kind != "none":
            procs = geo.dims_create(n, self.nd)
            mins, exts = [0, 0, 0], [0, 0, 0]
            for d in range(self.nd):
                lo = max(2, self.b)
                exts[d] = procs[d] * rng.randint(lo, lo + (5 if self.nd < 3 else 2)) + rng.randint(0, procs[d] - 1 if procs[d] > 1 else 3)
                mins[d] = rng.choice([0, 0, rng.randint(-20, 20), rng.randint(-3000, 3000)])
            self.gb = geo.Bounds(mins, exts)
            if self.nd < 3 and rng.random() < 0.6:
                self.vkind = rng.choice(["S", "RW"])
                self.vb = rng.randint(1, min(self.b + 1, min(exts[d] // procs[d] for d in range(self.nd))))
                self.vinit = rng.choice([0, 3])
                self.v2 = rng.random() < 0.4
                self.vb2 = rng.randint(1, min(self.b + 1, min(exts[d] // procs[d] for d in range(self.nd))))
        self.nets = [rng.random() < 0.5 for _ in range(rng.choice([0, 1, 1, 2]))]
        if self.kind == "none" and not self.nets:
            self.nets = [rng.random() < 0.5]
        self.die, self.born, self.link, self.unlink, self.jump = rng.choice([0, 19, 7]), rng.choice([0, 17, 7]), rng.choice([2, 4]), rng.choice([0, 5, 9]), rng.choice([0, 6])
        self.T = rng.randint(2, 9)
        self.seed = rng.randrange(2 ** 30)
        self.start = rng.choice([1, 1, 0.5, 3])
        self.pulse = rng.choice([None, self.start + rng.randint(0, self.T) + 0.25])
        self.ck = rng.choice([None, self.start + rng.randint(0, self.T - 1) + 0.125])      # saved, and continued by a restored model
        self.every = rng.choice([None, 1, 2]) if self.kind == "none" else None      # explicit moves
        self.npop = rng.choice([1, 3, 8, 20, 40])
        self.types = rng.choice([[0], [0, 1], [2, 9, 4]])
        cont = "c" in self.kind
        self.pop = []
        for i in range(self.npop):
            loc = None
            if self.kind != "none":
                loc = tuple(self.gb.mins[d] + (rng.randrange(self.gb.exts[d] * 8) / 8.0 if cont else rng.randrange(self.gb.exts[d])) if d < self.nd else 0 for d in range(3))
            self.pop.append((mix(self.seed, i), rng.randrange(10 ** 6), loc, rng.randrange(n), rng.choice(self.types)))
        self.links = []
        if self.npop > 1:
            for k in range(len(self.nets)):
                for _ in range(rng.choice([0, self.npop // 2, 2 * self.npop])):
                    i, j = rng.sample(range(self.npop), 2)
                    self.links.append((k, min(i, j), max(i, j), rng.random() < 0.5))
        cx.config(n=n, kind=self.kind, nd=self.nd, gb=repr(self.gb) if self.kind != "none" else None, periodic=self.periodic, b=self.b, vl=self.vkind, v2=self.v2, ck=self.ck, nets=self.nets, T=self.T,
                  rates=(self.die, self.born, self.link, self.unlink, self.jump), pulse=self.pulse, every=self.every, pop=self.npop, seed=self.seed, start=self.start)

    # what both the model and the reference follow
    def target(self, loc, d):
        cont = "c" in self.kind
        u = 0.125 if cont else 1
        step = []
        for i in range(self.nd):
            s = (mix(d, i) % 5 - 2) * (u if mix(d, i, 1) % 2 else 1)
            if self.jump and mix(d, 77) % self.jump == 0:
                s = (mix(d, i, 2) % 41 - 20) * u
            step.append(s)
        q = [loc[i] + step[i] if i < self.nd else 0 for i in range(3)]
        if cont and not self.periodic:
            q = [min(max(q[i], self.gb.mins[i]), self.gb.mins[i] + self.gb.exts[i] - 0.125) if i < self.nd else 0 for i in range(3)]
        return tuple(q)

    def decide(self, tick, num, val, near, ends, values):
        """near: (num, val) of the agents in sight, itself included; ends: (net, role, num, val, weight); values: around its location."""
        acc = mix(self.seed, int(tick * 4), num, val)
        for s in (near, ends):
            for x in sorted(s):
                acc = mix(acc, *x)
        return mix(acc, *values)


def floor3(p):
    return tuple(int(c // 1) for c in p)


class Reference:
    """The model without ranks."""

    def __init__(self, C):
        self.C = C
        self.ag = {num: [val, loc, home] for num, val, loc, home, _ in C.pop}
        self.edges = [dict() for _ in C.nets]
        for k, i, j, rev in C.links:
            self.put(k, *((C.pop[j][0], C.pop[i][0]) if rev else (C.pop[i][0], C.pop[j][0])), self.w0(k, i, j))
        self.read = self.write = None
        if C.vkind:
            self.read = {c: C.vinit for c in C.gb.cells()}
            self.write = dict(self.read) if C.vkind == "RW" else self.read
        self.second = {c: C.vinit for c in C.gb.cells()} if C.v2 else None
        self.rows = []
        self.dead = []

    def w0(self, k, i, j):
        return mix(k, i, j) % 1000

    def key(self, k, u, v):
        return (u, v) if self.C.nets[k] or u < v else (v, u)

    def put(self, k, u, v, w):
        self.edges[k][self.key(k, u, v)] = w

    def near(self, num):
        C = self.C
        p = self.ag[num][1]
        out = []
        for kind in C.kind:
            q = floor3(p) if kind == "g" else p
            for m, (val, loc, _) in self.ag.items():
                r = floor3(loc) if kind == "g" else loc
                ok = True
                for d in range(C.nd):
                    dx = abs(q[d] - r[d])
                    gaps = [dx, abs(dx - C.gb.exts[d])] if C.periodic else [dx]
                    ok = ok and (min(gaps) <= C.b if kind == "g" else min(gaps) < C.b)
                if ok:
                    out.append((m, val))
        return out

    def around(self, p):
        C = self.C
        c = floor3(p)
        out = []
        for off in itertools.product((-1, 0, 1), repeat=C.nd):
            q = tuple(c[d] + (off[d] if d < C.nd else 0) for d in range(3))
            if C.periodic:
                q = geo.border_grid(q, C.gb, True)
            elif not C.gb.contains(q):
                continue
            out.append(self.read[q])
            if C.v2:
                out.append(self.second[q])
        return sorted(out)

    def ends(self, num):
        out = []
        for k, es in enumerate(self.edges):
            for (u, v), w in es.items():
                if num in (u, v):
                    o = v if u == num else u
                    out.append((k, (1 if u == num else 2) if self.C.nets[k] else 0, o, self.ag[o][0], w))
        return out

    def step(self, tick):
        C = self.C
        plan = {}
        for num, (val, loc, _) in self.ag.items():
            near = self.near(num) if C.kind != "none" else []
            ends = self.ends(num)
            vals = self.around(loc) if C.vkind else []
            d = C.decide(tick, num, val, near, ends, vals)
            cand = sorted({m for m, _ in near if m > num} | {e[2] for e in ends if e[2] > num})
            plan[num] = (d, cand, sorted({(e[0], e[1], e[2]) for e in ends if e[2] > num}))
        cells = {}
        for num, (val, loc, _) in self.ag.items():
            if C.vkind:
                c = floor3(loc)
                cells[c] = cells.get(c, 0) + val
        for num, (d, cand, own) in plan.items():
            a = self.ag[num]
            if C.vkind == "S":
                self.read[floor3(a[1])] += d % 7
            elif C.vkind == "RW":
                c = floor3(a[1])
                self.write[c] = cells[c] * 3 + self.read[c] % 1000
            if C.v2:
                self.second[floor3(a[1])] += a[0] % 11
            a[0] = d % 1000003
            if C.kind != "none":
                q = C.target(a[1], d)
                if C.periodic or "c" not in C.kind:
                    if "c" in C.kind:
                        q = tuple(geo.wrap1(q[i], C.gb.mins[i], C.gb.exts[i]) if i < C.nd else 0 for i in range(3))
                    else:
                        q = geo.border_grid(q, C.gb, C.periodic)
                a[1] = q
            if C.nets and cand and mix(d, 3) % C.link == 0:
                k, o = mix(d, 4) % len(C.nets), cand[mix(d, 5) % len(cand)]
                u, v = (num, o) if mix(d, 6) % 2 else (o, num)
                self.put(k, u, v, d % 997)
            if own and C.unlink and mix(d, 8) % C.unlink == 0:
                k, role, o = own[mix(d, 9) % len(own)]
                self.edges[k].pop(self.key(k, *((num, o) if role < 2 else (o, num))), None)
        for num, (d, _, _) in plan.items():
            if C.born and mix(d, 10) % C.born == 0 and len(plan) < 80:
                self.ag[mix(num, int(tick * 4), 5)] = [d % 1009, self.ag[num][1], self.ag[num][2]]
            if C.die and mix(d, 11) % C.die == 0:
                self.dead.append((tick, num))
                del self.ag[num]
                for es in self.edges:
                    for k in [k for k in es if num in k]:
                        del es[k]
        if C.vkind == "RW":
            self.read, self.write = self.write, self.read

    def pulse(self):
        for a in self.ag.values():
            a[0] += 5

    def relocate(self, tick, n):
        for num, a in self.ag.items():
            if mix(num, int(tick * 4), 6) % 3 == 0:
                a[2] = mix(num, int(tick * 4), 7) % n

    def log(self, tick):
        vs = [a[0] for a in self.ag.values()]
        self.rows.append((tick, len(vs), sum(vs), max(vs + [0]), min(vs + [10 ** 12]), sum(len(e) for e in self.edges)))


class Model:
    """The same on the library."""

    def __init__(self, cx, C, d):
        self.cx, self.C, self.d = cx, C, d
        self.nid = 0
        self.build()
        self.populate()
        self.loggers("")

    def build(self):
        cx, C = self.cx, self.C
        rng = cx.rng
        comm = cx.comm
        self.ctx = r4ctx.SharedContext(comm)
        self.restore = Restore(rng.random() < 0.5)
        bt = BorderType.Periodic if C.periodic else BorderType.Sticky
        self.spaces, self.nets, self.vl, self.vl2 = [], [], None, None
        self.late = rng.random() < 0.3
        second = C.v2 and rng.random() < 0.5
        if C.v2:
            self.vl2 = SharedValueLayer(comm, C.gb.box(), bt, C.vb2, C.vinit, torch.float64)
            if second:
                self.ctx.add_value_layer(self.vl2)
        for i, k in enumerate(C.kind if C.kind != "none" else ""):
            if k == "g":
                s = r4space.SharedGrid(f"s{i}", C.gb.box(), bt, OccupancyType.Multiple, C.b, comm)
            else:
                s = r4space.SharedCSpace(f"s{i}", C.gb.box(), bt, OccupancyType.Multiple, C.b, comm, rng.choice([1, 3, 100]))
            self.spaces.append((k, s))
            self.ctx.add_projection(s)
        if C.vkind:
            self.vl = (SharedValueLayer if C.vkind == "S" else ReadWriteValueLayer)(comm, C.gb.box(), bt, C.vb, C.vinit, torch.int64)
            self.ctx.add_value_layer(self.vl)
            if C.v2 and not second:
                self.ctx.add_value_layer(self.vl2)
        for i, dr in enumerate(C.nets):
            self.nets.append((DirectedSharedNetwork if dr else UndirectedSharedNetwork)(f"n{i}", comm))
            if not self.late:
                self.ctx.add_projection(self.nets[-1])
        self.regions = None
        if self.spaces:
            lb = self.spaces[0][1].get_local_bounds()
            self.regions = [geo.Bounds(*x) for x in cx.ctl.allgather(((lb.xmin, lb.ymin, lb.zmin), (lb.xextent, lb.yextent, lb.zextent)))]

    def joined(self):
        if self.late:
            for o in self.nets:
                self.ctx.add_projection(o)

    def populate(self):
        cx, C = self.cx, self.C
        for num, val, loc, home, t in C.pop:
            r = home if loc is None else geo.owner(loc, self.regions)
            # ids are those of the rank the agent is created on: sometimes another one than where it is put
            made = (mix(num, 1) % cx.size) if mix(num, 2) % 3 == 0 and loc is not None else r
            if made == cx.rank:
                self.make(num, val, loc, t)
        self.joined()
        self.sync()
        uids = {}
        for x in cx.ctl.allgather({a.num: (a.uid, a.local_rank) for a in self.ctx.agents()}):
            uids.update(x)
        cx.check(set(uids) == {p[0] for p in C.pop}, "the population is not complete after the first synchronisation", len(uids), len(C.pop))
        ref = Reference(C)
        want = []
        for k, i, j, rev in C.links:
            a, b = uids[C.pop[i][0]], uids[C.pop[j][0]]
            if a[1] == cx.rank and b[1] != cx.rank and b not in want:
                want.append(b)
        self.ctx.request_agents(want, self.restore)
        for k, i, j, rev in C.links:
            a, b = uids[C.pop[i][0]], uids[C.pop[j][0]]
            if a[1] == cx.rank:
                u = self.ctx.agent(a[0])
                v = self.ctx.agent(b[0]) or self.ctx.ghost_agent(b[0])
                if rev:
                    u, v = v, u
                self.nets[k].add_edge(u, v, w=ref.w0(k, i, j))
        self.sync()

    def loggers(self, part):
        cx, comm, d, rng = self.cx, self.cx.comm, self.d, self.cx.rng
        self.counts = Counts()
        loggers = r4l.create_loggers(self.counts, op=MPI.SUM, names={"count": None, "vsum": "total"}, rank=cx.rank)
        loggers += r4l.create_loggers(self.counts, op=MPI.MAX, names={"vmax": None}, rank=cx.rank)
        loggers += r4l.create_loggers(self.counts, op=MPI.MIN, names={"vmin": None}, rank=cx.rank)
        loggers += r4l.create_loggers(self.counts, op=MPI.SUM, names={"edges": None}, rank=cx.rank)
        self.set = r4l.ReducingDataSet(loggers, comm, os.path.join(d, f"counts{part}.csv"), buffer_size=rng.choice([1, 2, 3, 1000]))
        self.tab = r4l.TabularLogger(comm, os.path.join(d, f"deaths{part}.csv"), ["tick", "num"])

    def pt(self, k, p):
        return DiscretePoint(*floor3(p)) if k == "g" else ContinuousPoint(*[float(c) for c in p])

    def make(self, num, val, loc, t):
        a = Ag(self.nid, t, self.cx.rank, num, val)
        self.nid += 1
        if self.restore.cache is not None:
            self.restore.cache[a.uid] = a
        self.ctx.add(a)
        if loc is not None:
            self.go(a, loc)

    def go(self, a, loc):
        for k, s in self.spaces:
            if s.move(a, self.pt(k, loc)) is None:
                self.cx.fail("a move in a multiple occupancy space is refused", a.uid, loc)

    def sync(self):
        self.ctx.synchronize(self.restore)
        self.cx.stats["syncs"] += 1

    def loc(self, a):
        best = None
        for k, s in self.spaces:
            p = s.get_location(a)
            if p is None:
                self.cx.fail("an agent has no location", a.uid)
            p = tuple(p.coordinates.tolist())
            if k == "c" or best is None:
                best = p
        return best

    def near(self, a):
        C = self.C
        out = []
        for k, s in self.spaces:
            p = s.get_location(a).coordinates.tolist()
            if k == "g":
                rs = [range(-C.b, C.b + 1) if d < C.nd else (0,) for d in range(3)]
                cells = set()
                for x in rs[0]:
                    for y in rs[1]:
                        for z in rs[2]:
                            q = (int(p[0]) + x, int(p[1]) + y, int(p[2]) + z)
                            if C.periodic:
                                cells.add(geo.border_grid(q, C.gb, True))
                            elif C.gb.contains(q):
                                cells.add(q)
                for q in cells:
                    for o in s.get_agents(DiscretePoint(*q)):
                        out.append((o.num, o.val))
                        self.sight[o.num] = o
            else:
                found = {}
                shifts = [(-C.gb.exts[d], 0, C.gb.exts[d]) if C.periodic and d < C.nd else (0,) for d in range(3)]
                for x in shifts[0]:
                    for y in shifts[1]:
                        for z in shifts[2]:
                            lo = [int(c // 1) - C.b - 1 if d < C.nd else 0 for d, c in enumerate((p[0] + x, p[1] + y, p[2] + z))]
                            e = [2 * C.b + 3 if d < C.nd else 0 for d in range(3)]
                            for o in s.get_agents_within(BoundingBox(lo[0], e[0], lo[1], e[1], lo[2], e[2])):
                                r = s.get_location(o).coordinates.tolist()
                                if all(abs(p[d] + sh - r[d]) < C.b for d, sh in zip(range(C.nd), (x, y, z))):
                                    found[o.uid] = (o.num, o.val)
                                    self.sight[o.num] = o
                out += list(found.values())
        return out

    def ends(self, a):
        out = []
        for k, net in enumerate(self.nets):
            g = net.graph
            if self.C.nets[k]:
                out += [(k, 1, v.num, v.val, x["w"], v) for _, v, x in g.out_edges(a, data=True)]
                out += [(k, 2, u.num, u.val, x["w"], u) for u, _, x in g.in_edges(a, data=True)]
            else:
                out += [(k, 0, v.num, v.val, x["w"], v) for _, v, x in g.edges(a, data=True)]
        return out

    def step(self, tick):
        C, cx = self.C, self.cx
        cx.op("step", tick)
        plan = []
        cells = {}
        self.sight = {}
        for a in self.ctx.agents():
            near = self.near(a) if self.spaces else []
            ends = self.ends(a)
            loc = self.loc(a) if self.spaces else None
            vals = []
            if self.vl is not None:
                pt = DiscretePoint(*floor3(loc))
                vals = [int(x) for x in self.vl.get_nghs(pt)[0]]
                if C.v2:
                    vals += [int(x) for x in self.vl2.get_nghs(pt)[0]]
                vals.sort()
                c = floor3(loc)
                cells[c] = cells.get(c, 0) + a.val
            d = C.decide(tick, a.num, a.val, near, [e[:5] for e in ends], vals)
            cand = sorted({m for m, _ in near if m > a.num} | {e[2] for e in ends if e[2] > a.num})
            plan.append((a, loc, d, cand, sorted({e[:3] for e in ends if e[2] > a.num}), {e[2]: e[5] for e in ends}))
        for a, loc, d, cand, own, ends in plan:
            if C.v2:
                pt = DiscretePoint(*floor3(loc))
                self.vl2.set(pt, self.vl2.get(pt) + a.val % 11)
            if self.vl is not None:
                pt = DiscretePoint(*floor3(loc))
                c = floor3(loc)
                if C.vkind == "S":
                    self.vl.set(pt, self.vl.get(pt) + d % 7)
                else:
                    self.vl.set(pt, cells[c] * 3 + int(self.vl.get(pt)) % 1000)
            if C.nets and cand and mix(d, 3) % C.link == 0:
                k, o = mix(d, 4) % len(C.nets), cand[mix(d, 5) % len(cand)]
                other = ends.get(o) or self.sight[o]
                u, v = (a, other) if mix(d, 6) % 2 else (other, a)
                self.nets[k].add_edge(u, v, w=d % 997)
                cx.stats["obs_links"] += 1
            if own and C.unlink and mix(d, 8) % C.unlink == 0:
                k, role, o = own[mix(d, 9) % len(own)]
                u, v = (a, ends[o]) if role < 2 else (ends[o], a)
                self.nets[k].remove_edge(u, v)
        for a, loc, d, cand, own, ends in plan:
            a.val = d % 1000003
            if self.spaces:
                self.go(a, C.target(loc, d))
        for a, loc, d, _, _, _ in plan:
            if C.born and mix(d, 10) % C.born == 0 and self.total < 80:
                cur = self.loc(a) if self.spaces else None
                self.make(mix(a.num, int(tick * 4), 5), d % 1009, cur, a.type)
                cx.stats["obs_births"] += 1
            if C.die and mix(d, 11) % C.die == 0:
                self.tab.log_row(tick, a.num)
                self.ctx.remove(a)
                cx.stats["obs_deaths"] += 1
        if C.vkind == "RW":
            self.vl.swap_layers()
        self.sync()

    # ---------------------------------------------------------------- checkpoints
    def grids(self):
        out = []
        if self.vl is not None:
            out += [self.vl.grid] if self.C.vkind == "S" else [self.vl.read_grid, self.vl.write_grid]
        if self.C.v2:
            out.append(self.vl2.grid)
        return out

    def save(self):
        """Everything of this model, as bytes."""
        cx, rng = self.cx, self.cx.rng
        c = Checkpoint()
        parts = [c.save_schedule, c.save_random, lambda: c.save("nid", self.nid), lambda: c.save("cells", [g.clone() for g in self.grids()])]
        parts += [lambda s=s: c.save_space(self.ctx, s) for _, s in self.spaces]
        parts += [lambda o=o: c.save_network(o, cx.rank) for o in self.nets]

        def agents():
            # in one call, or type by type
            if len(self.C.types) == 1 or rng.random() < 0.5:
                c.save_agents(self.ctx.agents())
            else:
                for t in self.C.types:
                    if self.ctx.contains_type(t):
                        c.save_agents(self.ctx.agents(t))
        parts.append(agents)
        order = list(range(len(parts)))
        rng.shuffle(order)
        types = rng.getstate()
        for i in order:
            parts[i]()
        rng.setstate(types)     # ranks may hold other types: the script goes on the same everywhere
        return dill.dumps(c)

    def resume(self, blob):
        """A new model from the bytes, as another process would."""
        cx, C = self.cx, self.C
        c = dill.loads(blob)
        self.build()
        for a in c.restore_agents(self.restore):
            self.ctx.add(a)
        for _, s in self.spaces:
            c.restore_space(self.ctx, s)
        self.joined()
        for o in self.nets:
            c.restore_network(self.ctx, o, self.restore)
        self.nid = c.restore("nid", lambda x: x)

        def fill(saved):
            for g, x in zip(self.grids(), saved):
                g[:] = x
        c.restore("cells", fill)
        c.restore_random()
        self.sync()
        self.loggers("2")
        return c


def case(cx):
    C = Conf(cx)
    n = cx.size
    d = os.path.join(cx.workdir, f"m{n}-{cx.case_seed:x}")
    if cx.rank == 0:
        os.makedirs(d)
    cx.ctl.Barrier()
    ref = Reference(C)
    m = Model(cx, C, d)
    runner = r4s.init_schedule_runner(cx.comm)
    m.total = len(C.pop)
    trace = []

    def step():
        t = r4s.runner().tick()
        m.total = cx.ctl.allreduce(len(list(m.ctx.agents())))
        m.step(t)
        ref.step(t)
        verify(t)

    def verify(t):
        cx.stats["obs_steps"] += 1
        mine = {num: a for num, a in ref.ag.items() if (geo.owner(a[1], m.regions) if a[1] is not None else a[2]) == cx.rank}
        got = {a.num: a for a in m.ctx.agents()}
        cx.check(set(got) == set(mine), "the agents here are not those of the undivided model", f"tick {t}", "missing", lambda: sorted(set(mine) - set(got)), "extra", lambda: sorted(set(got) - set(mine)))
        for num, a in mine.items():
            cx.check(got[num].val == a[0], "an agent's state is not that of the undivided model", f"tick {t}", num, got[num].val, a[0])
            if a[1] is not None:
                l = m.loc(got[num])
                cx.check(tuple(l) == tuple(float(c) if "c" in C.kind else c for c in a[1]), "an agent's location is not that of the undivided model", f"tick {t}", num, l, a[1])
        cx.stats["obs_agents"] += len(mine)
        for k, net in enumerate(m.nets):
            have = {}
            for u, v, x in net.graph.edges(data=True):
                have[ref.key(k, u.num, v.num)] = x["w"]
            want = {e: w for e, w in ref.edges[k].items() if e[0] in mine or e[1] in mine}
            cx.check(have == want, "the edges here are not those of the undivided model", f"tick {t}", k, "missing", lambda: sorted(set(want) - set(have)), "extra", lambda: sorted(set(have) - set(want)))
            cx.stats["obs_edges"] += len(want)
            if any(e[0] not in mine or e[1] not in mine for e in want):
                cx.nontrivial = True
        if C.vkind:
            for c in C.gb.cells():
                if m.regions[cx.rank].contains(c):
                    v = int(m.vl.get(DiscretePoint(*c)))
                    cx.check(v == ref.read[c], "a value is not that of the undivided model", f"tick {t}", c, v, ref.read[c])
                    cx.stats["obs_values"] += 1
                    if C.v2:
                        v = float(m.vl2.get(DiscretePoint(*c)))
                        cx.check(v == ref.second[c], "a value is not that of the undivided model", f"tick {t}", c, "second layer", v, ref.second[c])
        if n > 1 and m.spaces and len(ref.ag) > 1:
            cx.nontrivial = True

    def pulse():
        cx.op("pulse")
        for a in m.ctx.agents():
            a.val += 5
        m.sync()
        ref.pulse()

    def relocate():
        t = r4s.runner().tick()
        cx.op("relocate", t)
        mv = []
        for a in m.ctx.agents():
            if mix(a.num, int(t * 4), 6) % 3 == 0:
                to = mix(a.num, int(t * 4), 7) % n
                if to != cx.rank:
                    mv.append((a.uid, to))
        m.ctx.move_agents(mv, m.restore)
        m.sync()
        ref.relocate(t, n)
        cx.stats["obs_relocated"] += len(mv)

    def log():
        t = r4s.runner().tick()
        ag = list(m.ctx.agents())
        m.counts.count, m.counts.vsum = len(ag), sum(a.val for a in ag)
        m.counts.vmax, m.counts.vmin = max([a.val for a in ag] + [0]), min([a.val for a in ag] + [10 ** 12])
        local = {a.num for a in ag}
        m.counts.edges = sum(1 for net in m.nets for u, v in net.graph.edges() if min(u.num, v.num) in local)
        m.set.log(t)
        ref.log(t)

    def finish():
        trace.append("end")
        m.set.close()
        m.tab.close()

    saved = []

    def save():
        cx.op("save")
        saved.append(m.save())
        runner.stop()
    rng = cx.rng
    todo = {"step": step, "log": log, "pulse": pulse, "relocate": relocate, "end": finish}

    def meta(kind):
        md = {"kind": kind}
        if C.ck is not None and mix(C.seed, len(kind), 3) % 2:
            md["tag"] = "other"
        return md
    runner.schedule_repeating_event(C.start, 1, step, metadata=meta("step"))
    evs = [lambda: runner.schedule_repeating_event(C.start, 1, log, priority_type=PriorityType.LAST, metadata=meta("log"))]
    if C.pulse is not None:
        evs.append(lambda: runner.schedule_event(C.pulse, pulse, metadata=meta("pulse")))
    if C.every:
        evs.append(lambda: runner.schedule_repeating_event(C.start, C.every, relocate, priority_type=PriorityType.FIRST, metadata=meta("relocate")))
    if C.ck is not None:
        evs.append(lambda: runner.schedule_event(C.ck, save, metadata={"kind": "save"}))
    evs.append(lambda: runner.schedule_stop(C.start + C.T))
    rng.shuffle(evs)
    for e in evs:
        e()
    runner.schedule_end_event(finish, metadata=meta("end"))
    runner.execute()
    parts = [""]
    if C.ck is not None:
        cx.check(len(saved) == 1 and trace == ["end"], "the saving event or the end event did not run once", len(saved), trace)
        cx.op("resume")
        c = m.resume(saved[0])
        with_stop = rng.random() < 0.5
        c.restore_schedule(cx.comm, lambda md: todo[md["kind"]], restore_stop_at=with_stop)
        runner = c.restore_schedule(cx.comm, lambda md: todo[md["kind"]], tag="other", initialize=False)
        cx.check(runner is r4s.runner() and runner.tick() == C.ck, "the restored schedule is not at the saved tick", runner.tick(), C.ck)
        if not with_stop:
            runner.schedule_stop(C.start + C.T)
        runner.execute()
        cx.check(trace == ["end"] * 2, "the end event did not run once after the restore", trace)
        parts.append("2")
        cx.stats["obs_resumed"] += 1
    else:
        cx.check(trace == ["end"], "the end event did not run once", trace)
    cx.check(len(ref.rows) in (C.T, C.T + 1) and ref.rows[0][0] == C.start, "the model did not run for its ticks", len(ref.rows), C.T)
    cx.ctl.Barrier()
    if cx.rank == 0:
        got, dead = [], []
        for part in parts:
            with open(os.path.join(d, f"counts{part}.csv"), newline="") as f:
                rows = list(csv.reader(f))
            cx.check(rows[0] == ["tick", "count", "total", "vmax", "vmin", "edges"], "the header of the counts is wrong", rows[0])
            got += [(float(r[0]),) + tuple(int(x) for x in r[1:]) for r in rows[1:]]
            with open(os.path.join(d, f"deaths{part}.csv"), newline="") as f:
                rows = list(csv.reader(f))
            cx.check(rows[0] == ["tick", "num"], "the header of the deaths is wrong", rows[0])
            dead += [(float(a), int(b)) for a, b in rows[1:]]
        cx.check(got == ref.rows, "the logged counts are not those of the undivided model", lambda: [(a, b) for a, b in zip(got, ref.rows) if a != b][:3], len(got), len(ref.rows))
        cx.check(sorted(dead) == sorted(ref.dead), "the logged deaths are not those of the undivided model", len(dead), len(ref.dead))
        cx.stats["obs_rows"] += len(ref.rows) + len(dead)
        shutil.rmtree(d, ignore_errors=True)
    cx.ctl.Barrier()
