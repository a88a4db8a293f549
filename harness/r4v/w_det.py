"""A model whose every decision depends on iteration orders and random draws; run twice, its traces must be equal.

The second run differs in everything that must not matter: hash seed, allocator, addresses (junk is allocated
between operations), delays of single ranks. Each rank appends what it observes to a trace.
"""
import hashlib
import json
import os
import random as pr
import time

from mpi4py import MPI
from repast4py import context as r4ctx, core
from repast4py import logging as r4l
from repast4py import random as r4r
from repast4py import schedule as r4s
from repast4py import space as r4space
from repast4py.geometry import find_2d_nghs_periodic
from repast4py.network import DirectedSharedNetwork, UndirectedSharedNetwork
from repast4py.schedule import PriorityType
from repast4py.space import BorderType, ContinuousPoint, DiscretePoint, OccupancyType
from repast4py.value_layer import SharedValueLayer

from . import geo


class A(core.Agent):
    def __init__(self, id, type, rank, v):
        super().__init__(id, type, rank)
        self.v = v

    def save(self):
        return (self.uid, self.v)

    def update(self, v):
        self.v = v


class Restore:
    def __init__(self, cached):
        self.cache = {} if cached else None

    def __call__(self, d):
        uid, v = d
        if self.cache is not None:
            a = self.cache.get(uid)
            if a is None:
                a = self.cache[uid] = A(uid[0], uid[1], uid[2], v)
            a.v = v
            return a
        return A(uid[0], uid[1], uid[2], v)


class Model:
    def __init__(self, cx, noise):
        rng = cx.rng
        self.cx, self.noise = cx, noise
        self.trace = []
        self.junk = []
        self.ctx = r4ctx.SharedContext(cx.comm)
        self.restore = Restore(rng.random() < 0.5)
        self.kind = rng.choice(["none", "g", "c", "gc", "cg", "g"])
        self.sp = []
        n = cx.size
        procs = geo.dims_create(n, 2)
        ext = [procs[d] * rng.randint(3, 8) + rng.randint(0, procs[d] - 1) for d in range(2)]
        mins = [rng.choice([0, 0, -7, 12]) for _ in range(2)]
        gb = geo.Bounds([mins[0], mins[1], 0], [ext[0], ext[1], 0])
        border = BorderType.Periodic if rng.random() < 0.5 else BorderType.Sticky
        self.buf = rng.randint(0, 3)
        self.vl = None
        if self.kind != "none":
            for i, k in enumerate(self.kind):
                if k == "g":
                    s = r4space.SharedGrid(f"s{i}", gb.box(), border, OccupancyType.Multiple, self.buf, cx.comm)
                else:
                    s = r4space.SharedCSpace(f"s{i}", gb.box(), border, OccupancyType.Multiple, self.buf, cx.comm, rng.choice([1, 3, 100]))
                self.ctx.add_projection(s)
                self.sp.append((k, s))
            if rng.random() < 0.5:
                self.vl = SharedValueLayer(cx.comm, gb.box(), border, min(self.buf, 2), rng.choice([0, "random", 1.5]))
                self.ctx.add_value_layer(self.vl)
        self.nets = []
        for i in range(rng.choice([0, 1, 1, 2])):
            net = (DirectedSharedNetwork if rng.random() < 0.5 else UndirectedSharedNetwork)(f"n{i}", cx.comm)
            self.ctx.add_projection(net)
            self.nets.append(net)
        self.p_die, self.p_born, self.p_edge = rng.choice([0, 0.05]), rng.choice([0, 0.06]), rng.choice([0.1, 0.4])
        self.p_shuffle = rng.random() < 0.7
        self.reqs = rng.random() < 0.7
        self.moves = rng.random() < 0.5
        self.nid = 0
        self.known = {}
        cx.config(n=n, kind=self.kind, nets=len(self.nets), border=int(border), buf=self.buf, ext=ext, vl=self.vl is not None, die=self.p_die, born=self.p_born,
                  cache=self.restore.cache is not None, reqs=self.reqs, moves=self.moves)
        for _ in range(rng.choice([2, 6, 12, 30])):
            self.born()
        d = os.path.join(cx.workdir, f"d{n}-{cx.case_seed:x}")
        if cx.rank == 0:
            os.makedirs(d, exist_ok=True)
        cx.ctl.Barrier()
        self.dir = d
        self.tab = r4l.TabularLogger(cx.comm, os.path.join(d, "t.csv"), ["tick", "uid", "v"])
        self.box = {"v": 0}
        self.red = r4l.ReducingDataSet([r4l.ReducingDataLogger(self, MPI.SUM, cx.rank)], cx.comm, os.path.join(d, "r.csv"), buffer_size=rng.choice([1, 2, 1000]))

    # the data source of the reduced log
    name = "v"
    dtype = "float64"

    @property
    def value(self):
        return float(sum(a.v for a in self.ctx.agents()) % 1000)

    def shake(self):
        """What must not matter."""
        if self.noise is None:
            return
        k = self.noise.random()
        if k < 0.15:
            time.sleep(self.noise.choice([0.0003, 0.001, 0.004]))
        elif k < 0.6:
            self.junk.append([object() for _ in range(self.noise.randint(0, 40))] + [bytearray(self.noise.randint(1, 3000))])
            if len(self.junk) > 20:
                del self.junk[self.noise.randrange(len(self.junk))]
        elif k < 0.7:
            self.junk.append([A(i, 0, 0, 0) for i in range(self.noise.randint(0, 20))])

    def put(self, *what):
        self.trace.append(repr(what))

    def rnd(self, n):
        return int(r4r.default_rng.integers(0, n))

    def u(self):
        return float(r4r.default_rng.random())

    # ------------------------------------------------------------ the model
    def born(self):
        self.shake()
        a = A(self.nid, self.rnd(3), self.cx.rank, self.rnd(100))
        self.nid += 1
        self.ctx.add(a)
        self.place(a)

    def place(self, a):
        pt = None
        for k, s in self.sp:
            if pt is None:
                pt = s.get_random_local_pt(r4r.default_rng).coordinates
            s.move(a, DiscretePoint(int(pt[0] // 1), int(pt[1] // 1)) if k == "g" else ContinuousPoint(float(pt[0]), float(pt[1])))

    def step_agent(self, a):
        self.shake()
        seen = []
        if self.sp:
            k, s = self.sp[0]
            loc = s.get_location(a)
            if loc is None:
                self.place(a)
                loc = s.get_location(a)
            x, y = float(loc.coordinates[0]), float(loc.coordinates[1])
            dx, dy = self.rnd(5) - 2, self.rnd(5) - 2
            if k == "c":
                dx, dy = dx + self.rnd(4) / 4, dy + self.rnd(4) / 4
            at = None
            for k, s in self.sp:
                pt = DiscretePoint(int((x + dx) // 1), int((y + dy) // 1)) if k == "g" else ContinuousPoint(x + dx, y + dy)
                got = s.move(a, pt)
                if got is None:
                    continue
                if k == "g":
                    others = list(s.get_agents(got))
                    at = got
                else:
                    lb = s.get_local_bounds()
                    cx0 = min(max(int(got.coordinates[0]) - 1, lb.xmin), lb.xmin + lb.xextent - 1)
                    cy0 = min(max(int(got.coordinates[1]) - 1, lb.ymin), lb.ymin + lb.yextent - 1)
                    others = list(s.get_agents_within(geo.Bounds((cx0, cy0, 0), (2, 2, 0)).box()))
                seen += [o.uid for o in others]
                if others and others[0] is not a:
                    a.v = (a.v * 3 + others[0].v + 1) % 1000
            if self.vl is not None and at is not None:
                lb = self.sp[0][1].get_local_bounds()
                ax, ay = int(at.coordinates[0]), int(at.coordinates[1])
                if lb.xmin <= ax < lb.xmin + lb.xextent and lb.ymin <= ay < lb.ymin + lb.yextent:
                    self.vl.set(DiscretePoint(ax, ay), float(self.vl.get(DiscretePoint(ax, ay))) + a.v)
        for net in self.nets:
            if not net.graph.has_node(a):
                continue
            nb = list(net.graph.neighbors(a))
            seen += [o.uid for o in nb]
            if nb:
                o = nb[self.rnd(len(nb))]
                a.v = (a.v + 7 * o.v + len(nb)) % 1000
                if self.u() < 0.15 and o.local_rank == self.cx.rank:
                    net.remove_edge(a, o)
                elif self.u() < 0.2 and o.local_rank == self.cx.rank:
                    net.update_edge(a, o, w=a.v)
            if self.u() < self.p_edge:
                cand = self.ctx.agents(count=5, shuffle=True)
                o = cand[0]
                if not net.contains_edge(a, o):
                    net.add_edge(a, o, w=self.rnd(10))
            if self.known and self.u() < self.p_edge:
                ids = list(self.known)
                o = self.ctx.ghost_agent(ids[self.rnd(len(ids))])
                # the owner of the smaller rank makes the edge
                if o is not None and o.local_rank > self.cx.rank and net.graph.has_node(o) and not net.contains_edge(a, o) and not net.contains_edge(o, a):
                    net.add_edge(a, o, w=self.rnd(10))
        self.put("a", a.uid, a.v, seen)

    def step(self):
        cx = self.cx
        t = r4s.runner().tick()
        lst = self.ctx.agents(shuffle=True) if self.p_shuffle else list(self.ctx.agents())
        self.put("step", t, [a.uid for a in lst])
        for a in lst:
            self.step_agent(a)
            self.tab.log_row(t, a.uid, a.v)
        for typ in range(3):
            if self.ctx.contains_type(typ):
                for a in list(self.ctx.agents(agent_type=typ, shuffle=True))[:3]:
                    a.v = (a.v * 2 + self.rnd(10)) % 1000
        for a in list(self.ctx.agents()):
            if self.u() < self.p_die and self.ctx.size()[-1] > 1:
                self.put("die", a.uid)
                self.ctx.remove(a)
            elif self.u() < self.p_born and self.nid < 80:
                self.born()
        self.shake()
        self.ctx.synchronize(self.restore)
        self.observe("sync")
        self.red.log(t)
        self.shake()
        # copies that are gone can not be used
        self.known = {u: 1 for u in self.known if self.ctx.ghost_agent(u) is not None}
        if cx.size > 1 and self.reqs and int(t) % 2 == 0:
            mine = [a.uid for a in self.ctx.agents()]
            allm = cx.ctl.allgather(mine)
            want = []
            for r in range(cx.size):
                if r != cx.rank and allm[r]:
                    for _ in range(self.rnd(3)):
                        u = allm[r][self.rnd(len(allm[r]))]
                        if u not in self.known and (u, r) not in want:
                            want.append((u, r))
            self.shake()
            got = self.ctx.request_agents(want, self.restore)
            self.put("req", [(a.uid, a.v) for a in got])
            self.known.update((a.uid, 1) for a in got)
        elif cx.size > 1 and self.moves and int(t) % 3 == 1:
            mv = []
            for a in self.ctx.agents(count=2, shuffle=True):
                dest = self.rnd(cx.size)
                if dest != cx.rank and self.ctx.size()[-1] - len(mv) > 1:
                    mv.append((a.uid, dest))
            self.put("move", mv)
            self.shake()
            self.ctx.move_agents(mv, self.restore)
            for a in list(self.ctx.agents()):
                if self.sp and self.sp[0][1].get_location(a) is None:
                    self.place(a)
            self.known = {u: 1 for u in self.known if self.ctx.ghost_agent(u) is not None}
            self.observe("moved")
        if self.u() < 0.4:
            self.tab.write() if False else None

    def observe(self, what):
        o = [what, [(a.uid, a.v, a.local_rank) for a in self.ctx.agents()], sorted(self.ctx.size().items())]
        for typ in range(3):
            o.append([a.uid for a in self.ctx.agents(agent_type=typ)])
        for k, s in self.sp:
            o.append([(a.uid, [float(c) for c in s.get_location(a).coordinates] if s.get_location(a) is not None else None) for a in self.ctx.agents()])
            lb = s.get_local_bounds()
            if k == "g":
                cells = []
                for x in range(lb.xmin - self.buf, lb.xmin + lb.xextent + self.buf):
                    for y in range(lb.ymin - self.buf, lb.ymin + lb.yextent + self.buf):
                        l = [a.uid for a in s.get_agents(DiscretePoint(x, y))]
                        if l:
                            cells.append((x, y, l))
                o.append(cells)
                self.cx.stats["obs_cells"] += len(cells)
            else:
                b = self.buf
                l = [a.uid for a in s.get_agents_within(geo.Bounds((lb.xmin - b, lb.ymin - b, 0), (lb.xextent + 2 * b, lb.yextent + 2 * b, 0)).box())]
                o.append(l)
                self.cx.stats["obs_cells"] += len(l)
        for net in self.nets:
            o.append([n.uid for n in net.graph.nodes])
            o.append([(u.uid, v.uid, sorted(d.items())) for u, v, d in net.graph.edges(data=True)])
            self.cx.stats["obs_edges"] += len(o[-1])
        if self.vl is not None:
            o.append(hashlib.md5(self.vl.grid.numpy().tobytes()).hexdigest())
        o.append(str(r4r.default_rng.bit_generator.state["state"]))
        self.put(*o)
        self.cx.stats["obs_orders"] += 1


def case(cx):
    rng = cx.rng
    P = cx.profile
    noise = pr.Random() if P.get("noise") else None
    r4r.init((cx.case_seed + (cx.rank if rng.random() < 0.5 else 0)) % (1 << 31))
    runner = r4s.init_schedule_runner(cx.comm)
    m = Model(cx, noise)
    stop = rng.choice([3, 5, 8])

    def rand_event(i):
        def f():
            m.shake()
            m.put("ev", runner.tick(), i, m.rnd(1000))
            for a in m.ctx.agents(count=2, shuffle=True):
                a.v = (a.v + i) % 1000
            if m.u() < 0.1 and evs:
                evs.pop(m.rnd(len(evs))).void()
            elif m.u() < 0.2:
                runner.schedule_event(runner.tick() + m.rnd(3), rand_event(100 + m.rnd(100)))
        return f
    evs = []
    for i in range(rng.randint(0, 5)):
        evs.append(runner.schedule_repeating_event(1, rng.choice([0.5, 1, 1]), rand_event(i),
                                                   *rng.choice([(), (), (PriorityType.BY_PRIORITY, rng.randint(0, 2)), (PriorityType.FIRST,)])))
    runner.schedule_repeating_event(1, 1, m.step, PriorityType.LAST)
    runner.schedule_stop(stop)
    cx.op("run", stop)
    m.observe("start")
    runner.execute()
    m.tab.close()
    m.red.close()
    cx.ctl.Barrier()
    if cx.rank == 0:
        for f in sorted(os.listdir(m.dir)):
            m.put(f, open(os.path.join(m.dir, f)).read())
            os.remove(os.path.join(m.dir, f))
        os.rmdir(m.dir)
    if cx.size > 1 and (m.nets or m.sp):
        cx.nontrivial = True
    cx.stats["obs_trace_lines"] += len(m.trace)
    if P.get("out"):
        with open(os.path.join(P["out"], f"{cx.size}-{cx.case_seed:x}-{cx.rank}.json"), "w") as f:
            json.dump({"conf": cx.conf, "trace": m.trace if cx.stats["trace_bytes"] < 0 else [hashlib.blake2b(x.encode(), digest_size=6).hexdigest() + x[:160] for x in m.trace]}, f, default=str)
