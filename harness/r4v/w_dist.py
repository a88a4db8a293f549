"""Random distributed models: agents, shared spaces, networks, requests, explicit moves.

All ranks keep the same reference model (World) and the same script; each applies its own operations.
The profile selects the ingredients and the oracles.
"""
import copy
import io
import json
import os

from repast4py import context as r4ctx, core, space as r4space
from repast4py.network import DirectedSharedNetwork, UndirectedSharedNetwork
from repast4py.space import BorderType, ContinuousPoint, DiscretePoint, OccupancyType

from . import geo


class Ag(core.Agent):
    """State saved as one element after the identity."""

    def __init__(self, id, type, rank, val):
        super().__init__(id, type, rank)
        self.val = val

    def save(self):
        return (self.uid, self.val)

    def update(self, val):
        self.val = val


class Ag3(Ag):
    """State saved as several elements after the identity."""

    def save(self):
        return (self.uid, self.val, 0, [self.val])

    def update(self, val, zero, again):
        assert zero == 0 and again == [val]
        self.val = val


class AgBox(Ag):
    """State held in a list of the agent's own, which is saved as it is and changed in place."""

    def __init__(self, id, type, rank, val):
        self.box = [0]
        super().__init__(id, type, rank, val)

    @property
    def val(self):
        return self.box[0]

    @val.setter
    def val(self, v):
        self.box[0] = v

    def save(self):
        return (self.uid, self.box)

    def update(self, box):
        self.box = box


class Restorer:
    """restore_agent callbacks in the two styles used by models: always fresh, or cached per uid."""

    def __init__(self, cached, cls=Ag):
        self.cached = cached
        self.cls = cls
        self.cache = {}
        self.calls = 0

    def __call__(self, data):
        self.calls += 1
        uid, val = data[0], data[1]
        if self.cls is AgBox:
            val = val[0]
        if self.cached:
            a = self.cache.get(uid)
            if a is None:
                a = self.cls(uid[0], uid[1], uid[2], val)
                self.cache[uid] = a
            else:
                a.val = val
            return a
        return self.cls(uid[0], uid[1], uid[2], val)


class Ref:
    __slots__ = ("uid", "owner", "val", "loc", "pval", "ploc")

    def __init__(self, uid, owner, val):
        self.uid, self.owner, self.val, self.loc = uid, owner, val, None


class Model:
    """Real objects of this rank plus the replicated reference model."""

    def __init__(self, cx, P):
        self.cx, self.P, self.rng = cx, P, cx.rng
        rng, n = cx.rng, cx.size
        self.n, self.me = n, cx.rank
        self.agents = {}
        self.dead = []
        base = rng.choice([0] * 7 + [2 ** 31 - 5, 10 ** 12])     # ids may be large
        self.nid, self.base, self.uids = [base] * n, base, set()
        self.types = rng.choice([[0, 1, 2]] * 5 + [[0], [0, 3, 1000], [5, 2 ** 30, 7, 0]])
        self.cls = rng.choice([Ag, AgBox, Ag3])
        self.partial = rng.random() < 0.25            # agents may have a location in only some of the spaces
        self.single = rng.random() < 0.2              # one agent per location
        self.visited = {}                             # space -> where agents are, or were since the last synchronisation
        self.odd = rng.choice([0.0, 0.0, 0.4])       # how often states are odd values
        self.vseq = 0
        self.touched = {}      # (net, edge) -> rank that acted on it since the last synchronisation
        self.creator = {}
        self.requested = [set() for _ in range(n)]
        self.ghosts = [set() for _ in range(n)]      # what each rank can look up since the last synchronisation
        self.deadobjs = []
        self.localobj = {}
        self.still = set()
        self.retired, self.settled = {}, 0           # removed agents; number of synchronisations
        self._spaces()
        self._nets()
        self.restore = Restorer(self.cachemode, self.cls)
        self.orders = [[] for _ in range(n)]

    # ---------------------------------------------------------------- construction
    def _spaces(self):
        cx, rng, P, n = self.cx, self.rng, self.P, self.n
        self.cachemode = rng.random() < 0.5
        kind = rng.choice(P.get("spaces", ["grid"]))
        self.kind = kind
        self.ctx = r4ctx.SharedContext(cx.comm)
        self.spaces = []       # (name, 'g'/'c', obj)
        self.periodic = False
        self.buf = {}
        if kind != "none":
            nd = rng.choice(P.get("dims", [1, 2, 2, 3]))
            if "c" in kind:
                nd = max(2, nd)
            procs = geo.dims_create(n, nd)
            self.periodic = rng.random() < P.get("p_periodic", 0.5)
            bmax = P.get("bmax", 3)
            buf = rng.randint(P.get("bmin", 0), bmax)
            mins, exts = [0, 0, 0], [0, 0, 0]
            for d in range(nd):
                lo = max(2, buf)
                exts[d] = procs[d] * rng.randint(lo, lo + (6 if nd < 3 else 3)) + rng.randint(0, procs[d] - 1 if procs[d] > 1 else 3)
                if rng.random() < 0.4:
                    mins[d] = rng.randint(-20, 20)
            if rng.random() < 0.1:
                mins = [rng.choice([0, 10 ** 6 + 1, -10 ** 6, 2 ** 24 + 1, 2 ** 31 - 3, -2 ** 33]) if d < nd else 0 for d in range(3)]
                cx.stats["obs_far_origin"] += 1
            self.gb = geo.Bounds(mins, exts)
            self.occ = occ = OccupancyType.Single if self.single else OccupancyType.Multiple
            bt = BorderType.Periodic if self.periodic else BorderType.Sticky
            cx.config(n=n, kind=kind, nd=nd, gb=repr(self.gb), periodic=self.periodic, buf=buf, cache=self.cachemode)
            for i, k in enumerate(kind):
                b = buf if i == 0 else rng.randint(P.get("bmin", 0), bmax if P.get("bmax2") is None else P["bmax2"])
                b = min(b, max(2, buf))
                if k == "g":
                    s = r4space.SharedGrid(f"g{i}", self.gb.box(), bt, occ, b, cx.comm)
                else:
                    s = r4space.SharedCSpace(f"c{i}", self.gb.box(), bt, occ, b, cx.comm, rng.choice([1, 2, 3, 8, 100]))
                self.spaces.append((f"{k}{i}", k, s))
                self.buf[f"{k}{i}"] = b
            lb = self.spaces[0][2].get_local_bounds()
            me = ((lb.xmin, lb.ymin, lb.zmin), (lb.xextent, lb.yextent, lb.zextent))
            self.regions = [geo.Bounds(*x) for x in cx.ctl.allgather(me)]
            self.add_late = rng.random() < 0.2
        else:
            self.gb = None
            cx.config(n=n, kind=kind, cache=self.cachemode)
            self.add_late = False
        for _, _, s in self.spaces:
            self.ctx.add_projection(s)

    def _nets(self):
        rng, P = self.rng, self.P
        self.nets = []     # (name, directed, obj)
        self.edges = {}    # name -> {key: attrs}
        for i in range(rng.choice(P.get("nnets", [0]))):
            d = rng.random() < P.get("p_directed", 0.5)
            nm = f"net{i}"
            obj = (DirectedSharedNetwork if d else UndirectedSharedNetwork)(nm, self.cx.comm)
            self.ctx.add_projection(obj)
            self.nets.append((nm, d, obj))
            self.edges[nm] = {}
        if self.nets:
            self.cx.op("nets", [(a, b) for a, b, _ in self.nets])

    def op_late_net(self):
        """A network joins a model that is already running."""
        d = self.rng.random() < 0.5
        nm = f"late{len(self.nets)}"
        obj = (DirectedSharedNetwork if d else UndirectedSharedNetwork)(nm, self.cx.comm)
        self.cx.op("late net", nm, d)
        self.ctx.add_projection(obj)
        self.nets.append((nm, d, obj))
        self.edges[nm] = {}
        self.cx.check(self.ctx.get_projection(nm) is obj, "a projection is not found by its name", nm)
        self.cx.stats["obs_late_nets"] += 1

    # ---------------------------------------------------------------- helpers
    def key(self, d, u, v):
        return (u, v) if d or u <= v else (v, u)

    def val(self):
        self.vseq += 1
        if self.odd and self.rng.random() < self.odd:
            return self.rng.choice([0, None, "", (), [], False, {"n": [self.vseq, {"d": (1, 2)}]}, [self.vseq, None], -self.vseq, float(self.vseq)])
        return (self.vseq, "s%d" % (self.vseq * 7919 % 1000))

    def locals_of(self, r):
        return [u for u in self.orders[r]]

    def obj(self, uid):
        """This rank's object for uid: local or ghost."""
        a = self.ctx.agent(uid)
        return a if a is not None else self.ctx.ghost_agent(uid)

    def point(self, k, p):
        return DiscretePoint(*[int(c) for c in p]) if k == "g" else ContinuousPoint(*[float(c) for c in p])

    # ---------------------------------------------------------------- operations
    def op_add(self, r, place=True):
        # an agent that was removed, and whose removal all ranks know of, may come back
        back = [u for u, (o, at, _) in self.retired.items() if o == r and (at < self.settled or not any(u in e and by != r for (_, e), by in self.touched.items()))]
        if back and self.rng.random() < 0.3:
            uid = self.rng.choice(back)
            return self.op_back(r, uid, place)
        uid = (self.nid[r], self.rng.choice(self.types), r)
        last = (self.nid[r] - 1, uid[1], r)          # ids are unique within a type and rank
        if self.rng.random() < 0.35 and last not in self.uids and last[0] >= self.base:
            uid = last
        else:
            self.nid[r] += 1
        self.uids.add(uid)
        v = self.val()
        ref = Ref(uid, r, v)
        self.agents[uid] = ref
        self.orders[r].append(uid)
        self.cx.op("add", uid)
        if self.me == r:
            a = self.cls(uid[0], uid[1], uid[2], v)
            self.ctx.add(a)
            if self.cachemode:
                self.restore.cache[uid] = a
        if self.spaces and place:
            self.op_move(uid, self.rand_loc(r if self.rng.random() < 0.8 else None))
        return uid

    def op_back(self, r, uid, place):
        again = self.rng.random() < 0.6
        _, _, a = self.retired.pop(uid)
        self.dead = [u for u in self.dead if u != uid]
        self.deadobjs = [x for x in self.deadobjs if x.uid != uid]
        v = self.val()
        self.agents[uid] = Ref(uid, r, v)
        self.orders[r].append(uid)
        self.cx.op("add again", uid, again)
        self.cx.stats["obs_back"] += 1
        # until the other ranks know, their copies are those of the removed agent: they link to those no more
        for x in range(self.n):
            self.ghosts[x].discard(uid)
        if self.me == r:
            if again:
                a.val = v
            else:
                a = self.cls(uid[0], uid[1], uid[2], v)
            self.ctx.add(a)
            if self.cachemode:
                self.restore.cache[uid] = a
        if self.spaces and place:
            self.op_move(uid, self.rand_loc(r if self.rng.random() < 0.8 else None))
        return uid

    def rand_loc(self, r=None, wild=False):
        """A location for an agent: in region r (None: anywhere, possibly outside of the world)."""
        rng, gb = self.rng, self.gb
        nd = gb.nd
        cont = "c" in self.kind
        p = [0, 0, 0]
        reg = self.regions[r] if r is not None else gb
        for d in range(nd):
            lo, e = reg.mins[d], reg.exts[d]
            x = rng.randint(lo, lo + e - 1)
            if rng.random() < 0.35:     # hug the border of the region
                b = max([1] + list(self.buf.values()))
                x = rng.choice([lo, lo + e - 1, lo + min(e - 1, b - 1), lo + max(0, e - b), lo + min(e - 1, b), lo + max(0, e - b - 1)])
            p[d] = x
            if cont:
                c = rng.random()
                if c < 0.5:
                    p[d] = x + rng.choice([0.0, 0.25, 0.5, 0.75, 0.999])
                elif c < 0.8:
                    p[d] = x + rng.randrange(0, 1000) / 1000.0
                if p[d] >= lo + e:
                    p[d] = float(x)
        if wild:
            for d in range(nd):
                if rng.random() < 0.5:
                    p[d] += rng.choice([-3, -2, -1, 1, 2, 3]) * rng.choice([1, self.gb.exts[d], 2])
        return tuple(p)

    def op_move(self, uid, p):
        """Moves agent uid (local on its owner) to p in every space; all spaces see corresponding points."""
        ref = self.agents[uid]
        if len(self.spaces) > 1 and not self.gb.contains(p):
            # corresponding locations in several spaces: stay inside, where no rounding can separate them
            p = tuple(min(max(p[d], self.gb.mins[d]), self.gb.mins[d] + self.gb.exts[d] - 1) if d < self.gb.nd else 0 for d in range(3))
        if len(self.spaces) > 1 and self.periodic:
            # wrapping adds rounding: keep to binary fractions
            p = tuple(int(c // 1) + round((c - c // 1) * 4) / 4.0 if d < self.gb.nd else 0 for d, c in enumerate(p))
            p = tuple(min(p[d], self.gb.mins[d] + self.gb.exts[d] - 0.25) if d < self.gb.nd else 0 for d in range(3))
        if self.single and self.occupied(p):
            return
        self.cx.op("move", uid, p)
        exp = {}
        skip = set()
        if self.partial and len(self.spaces) > 1:
            # stays out of some of the spaces it has not been placed in yet
            free = [nm for nm, _, _ in self.spaces if ref.loc is None or nm not in ref.loc]
            skip = {nm for nm in free if self.rng.random() < 0.5}
            if len(skip) == len(self.spaces):
                skip.discard(self.rng.choice(free))
            if skip:
                self.cx.op("not in", sorted(skip))
                self.cx.stats["obs_partly_placed"] += 1
        for nm, k, s in self.spaces:
            if nm in skip:
                continue
            if k == "g":
                q = tuple(int(c // 1) for c in p)
                exp[nm] = geo.border_grid(q, self.gb, self.periodic)
            else:
                q = tuple(float(c) for c in p)
                vals = geo.border_cs(q, self.gb, self.periodic)
                exp[nm] = tuple(vals[d][0] if d < self.gb.nd else 0.0 for d in range(3))
            if self.me == ref.owner:
                a = self.ctx.agent(uid)
                if a is None:
                    self.cx.fail("a local agent cannot be found by its identity", uid)
                pt = s.move(a, self.point(k, q))
                if pt is None and self.P.get("strict_move", True):
                    self.cx.fail("a move to a location free for it was refused", uid, q)
        # rounding: an exact value is needed to predict the owner
        ref.loc = exp
        if self.single:
            self.cx.stats["obs_single_occupancy_moves"] += 1
            for nm, q in exp.items():
                self.visited.setdefault(nm, []).append(q)

    def occupied(self, p):
        """Whether an agent is at p in some space, or was since the ranks last synchronised (and may be known there still)."""
        for nm, k, s in self.spaces:
            if k == "g":
                q = geo.border_grid(tuple(int(c // 1) for c in p), self.gb, self.periodic)
            else:
                vals = geo.border_cs(tuple(float(c) for c in p), self.gb, self.periodic)
                q = tuple(vals[d][0] if d < self.gb.nd else 0.0 for d in range(3))
            if any(all(abs(a - b) < 1e-3 for a, b in zip(q, w)) for w in self.visited.get(nm, ())):
                return True
        return False

    def settled_locations(self):
        self.visited = {nm: [ref.loc[nm] for ref in self.agents.values() if ref.loc is not None and nm in ref.loc] for nm, _, _ in self.spaces}

    def op_mutate(self, uid):
        ref = self.agents[uid]
        ref.val = self.val()
        self.cx.op("set", uid, ref.val)
        if self.me == ref.owner:
            a = self.ctx.agent(uid)
            if a is None:
                self.cx.fail("a local agent cannot be found by its identity", uid)
            a.val = ref.val

    def op_remove(self, uid):
        ref = self.agents.pop(uid)
        self.cx.op("remove", uid)
        if self.me == ref.owner:
            a = self.ctx.agent(uid)
            if a is None:
                self.cx.fail("a local agent cannot be found by its identity", uid)
            self.ctx.remove(a)
            self.restore.cache.pop(uid, None)
            self.deadobjs.append(a)
        else:
            g = self.ctx.ghost_agent(uid)
            if g is not None:
                self.deadobjs.append(g)
        self.orders[ref.owner].remove(uid)
        self.dead.append(uid)
        self.still.discard(uid)
        self.retired[uid] = (ref.owner, self.settled, a if self.me == ref.owner else None)
        for e in self.edges.values():
            for k in [k for k in e if uid in k]:
                del e[k]
        for r in range(self.n):
            self.requested[r].discard(uid)

    def attrs(self):
        self.vseq += 1
        new = {"w": self.vseq}
        if self.odd and self.rng.random() < self.odd:
            new[self.rng.choice(["w", "x"])] = self.rng.choice([0, None, "", False, 0.5, (self.vseq,)])
        return new

    # edges: rank r acts; u, v are uids visible on r, at least one local
    def op_edge_add(self, r, nm, u, v):
        d = dict((a, b) for a, b, _ in self.nets)[nm]
        k = self.key(d, u, v)
        attrs = dict(self.edges[nm].get(k, {}))
        new = self.attrs()
        if self.rng.random() < 0.3:
            new["c"] = self.rng.choice(["red", "blue"])
        attrs.update(new)
        self.edges[nm][k] = attrs
        self.cx.op("edge+", nm, r, u, v, new)
        if self.me == r:
            obj = self.net(nm)
            obj.add_edge(self.vis(u), self.vis(v), **new)

    def op_edge_update(self, r, nm, u, v):
        d = dict((a, b) for a, b, _ in self.nets)[nm]
        new = self.attrs()
        if self.rng.random() < 0.3:
            new["c"] = self.rng.choice(["red", "blue"])
        self.edges[nm][self.key(d, u, v)].update(new)
        self.cx.op("edge~", nm, r, u, v, new)
        if self.me == r:
            self.net(nm).update_edge(self.vis(u), self.vis(v), **new)

    def op_edge_remove(self, r, nm, u, v):
        d = dict((a, b) for a, b, _ in self.nets)[nm]
        del self.edges[nm][self.key(d, u, v)]
        self.cx.op("edge-", nm, r, u, v)
        if self.me == r:
            self.net(nm).remove_edge(self.vis(u), self.vis(v))

    def op_edge_clear(self, r, nm, es):
        for e in es:
            del self.edges[nm][e]
        self.cx.op("edges clear", nm, r, len(es))
        self.cx.stats["cleared"] += 1
        if self.me == r:
            self.net(nm).clear_edges()

    def net(self, nm):
        return [o for a, _, o in self.nets if a == nm][0]

    def vis(self, uid):
        a = self.obj(uid)
        if a is None:
            self.cx.fail("an agent that should be available on this rank cannot be found", uid, "rank", self.me)
        return a

    # ---------------------------------------------------------------- collective operations
    def sync(self, ghosts=True):
        self.cx.op("sync", ghosts)
        self.cx.stats["syncs"] += 1
        self.ctx.synchronize(self.restore, sync_ghosts=ghosts)
        self._settle(ghosts)

    def _settle(self, ghosts=True):
        moved = 0
        for uid, ref in self.agents.items():
            if ref.loc is not None:
                o = geo.owner(next(iter(ref.loc.values())), self.regions)
                if o is None:
                    raise RuntimeError(f"reference location outside every region {ref.loc} {self.regions}")
                if o != ref.owner:
                    self.transfer(ref, o)
                    moved += 1
        if moved:
            self.cx.nontrivial = True
        self.cx.stats["agents_crossed"] += moved
        if ghosts:
            self.refresh_ghosts()
            self.settled += 1
            self.touched = {}
            self.settled_locations()

    def transfer(self, ref, o):
        self.orders[ref.owner].remove(ref.uid)
        self.orders[o].append(ref.uid)
        ref.owner = o
        self.requested[o].discard(ref.uid)

    def refresh_ghosts(self):
        for r in range(self.n):
            g = set()
            for nm, k, s in self.spaces:
                g |= set(self.expected_buffer(r, nm))
            g |= {u for u in self.requested[r] if u in self.agents}
            for nm, e in self.edges.items():
                for (u, v) in e:
                    if u in self.agents and v in self.agents:
                        ou, ov = self.agents[u].owner, self.agents[v].owner
                        if ou == r and ov != r:
                            g.add(v)
                        elif ov == r and ou != r:
                            g.add(u)
            self.ghosts[r] = {u for u in g if self.agents[u].owner != r}

    def expected_buffer(self, r, nm):
        b = self.buf[nm]
        if b == 0:
            return []
        lb = self.regions[r]
        return [uid for uid, ref in self.agents.items() if ref.owner != r and ref.loc is not None and nm in ref.loc
                and geo.in_reach(ref.loc[nm], lb, b, self.gb, self.periodic)]

    def op_request(self, reqs):
        """reqs: per rank list of uids (owned elsewhere)."""
        self.cx.op("request", [[u for u in x] for x in reqs])
        self.cx.stats["requests"] += sum(len(x) for x in reqs)
        mine = [(u, self.agents[u].owner) for u in reqs[self.me]]
        got = self.ctx.request_agents(mine, self.restore)
        self.cx.check(sorted(a.uid for a in got) == sorted(u for u, _ in mine),
                      "request_agents did not return exactly the requested agents", [a.uid for a in got], mine)
        for r in range(self.n):
            for u in reqs[r]:
                self.requested[r].add(u)
                self.ghosts[r].add(u)

    def op_move_agents(self, moves):
        """moves: per rank list of (uid, dest)."""
        self.cx.op("move_agents", moves)
        self.cx.stats["explicit_moves"] += sum(len(x) for x in moves)
        self.ctx.move_agents(list(moves[self.me]), self.restore)
        for x in moves:
            for u, d in x:
                ref = self.agents[u]
                if d != ref.owner:
                    self.transfer(ref, d)
                ref.loc = None      # an explicitly moved agent arrives without a location
        self.cx.nontrivial = True
        if self.spaces:
            self._settle(True)
        else:
            self.refresh_ghosts()

    # ---------------------------------------------------------------- checkpoints
    def op_checkpoint(self, churn, synced):
        """Saves a checkpoint, lets the original model go on (churn), then replaces it by the restored one."""
        import dill
        import numpy as np
        from repast4py import checkpoint as ck, random as rrandom
        cx, rng = self.cx, self.rng
        late = rng.random() < 0.6 and self.cls is not AgBox     # pickled only after the original has gone on (a state saved by reference goes on too)
        order_nets = [nm for nm, _, _ in self.nets]
        rng.shuffle(order_nets)
        cx.op("checkpoint", "late" if late else "")
        extra = {"a": [1, self.vseq, {"b": ("x", 2.5)}], "rank": self.me, "arr": np.arange(3)}
        c = ck.Checkpoint()
        if rng.random() < 0.5:
            rrandom.init(rng.randrange(2 ** 31) + self.me)
        for _ in range(rng.randint(0, 3)):
            rrandom.default_rng.random()
        if rng.random() < 0.3:
            rrandom.default_rng.integers(0, 10, dtype=np.int32)      # leaves a half-used word in the generator
        seed0 = rrandom.seed
        c.save_random()
        chunks = rng.choice([1, 1, 2, 3])       # in one call or in several
        ags = list(self.ctx.agents())
        for i in range(chunks):
            c.save_agents(ags[len(ags) * i // chunks:len(ags) * (i + 1) // chunks] if chunks > 1 else self.ctx.agents())
        for nm, k, s in self.spaces:
            c.save_space(self.ctx, s)
        for nm, d, o in self.nets:
            c.save_network(o, self.me)
        c.save("extra", extra)
        c.save(("k", 1), self.vseq)
        blob = None if late else dill.dumps(c)
        keep = (copy.deepcopy(self.agents), copy.deepcopy(self.edges), copy.deepcopy(self.orders), list(self.dead), list(self.nid), self.vseq)

        def draws():
            r = rrandom.default_rng
            return [float(r.random()), int(r.integers(0, 1000, dtype=np.int32)), float(r.normal()), [int(x) for x in r.permutation(7)], int(r.integers(0, 1000, dtype=np.int32))]
        want = draws()
        churn(self)
        if late:
            blob = dill.dumps(c)
        path = os.path.join(cx.workdir, f"ck.{cx.case_seed:x}.{self.me}")
        with open(path, "wb") as f:
            f.write(blob)
        with open(path, "rb") as f:
            c2 = dill.load(f)
        os.unlink(path)
        vseq = self.vseq
        self.agents, self.edges, self.orders, self.dead, self.nid, self.vseq = keep
        self.vseq = vseq
        rrandom.init(rng.randrange(2 ** 31))
        rrandom.default_rng.random(5)
        # a fresh model
        self.ctx = r4ctx.SharedContext(cx.comm)
        bt = BorderType.Periodic if self.periodic else BorderType.Sticky
        new = []
        for nm, k, s in self.spaces:
            if k == "g":
                t = r4space.SharedGrid(nm, self.gb.box(), bt, self.occ, self.buf[nm], cx.comm)
            else:
                t = r4space.SharedCSpace(nm, self.gb.box(), bt, self.occ, self.buf[nm], cx.comm, rng.choice([1, 2, 3, 8, 100]))
            new.append((nm, k, t))
        self.spaces = new
        netlate = rng.random() < 0.5       # networks join the context before or after the agents
        self.nets = [(nm, d, (DirectedSharedNetwork if d else UndirectedSharedNetwork)(nm, cx.comm)) for nm, d, _ in self.nets]
        for nm, k, t in self.spaces:
            self.ctx.add_projection(t)
        if not netlate:
            for nm, d, o in self.nets:
                self.ctx.add_projection(o)
        self.restore = Restorer(self.cachemode, self.cls)
        if rng.random() < 0.5:
            c2.restore_random()
        for a in c2.restore_agents(self.restore):
            self.ctx.add(a)
        for nm, k, t in self.spaces:
            c2.restore_space(self.ctx, t)
        if netlate:
            for nm, d, o in self.nets:
                self.ctx.add_projection(o)
        for nm in order_nets:
            c2.restore_network(self.ctx, self.net(nm), self.restore)
        got = c2.restore("extra", lambda v, x: (v, x), 7)
        cx.check(got[1] == 7 and got[0]["a"] == extra["a"] and got[0]["rank"] == self.me and list(got[0]["arr"]) == [0, 1, 2] and c2.restore(("k", 1), lambda v: v) == extra["a"][1],
                 "a saved value is not restored as it was saved", got)
        c2.restore_random()
        cx.check(rrandom.seed == seed0, "the random seed is not restored", rrandom.seed, seed0)
        have = draws()
        cx.check(have == want, "the restored random stream differs from the saved one", have, want)
        rrandom.init(cx.case_seed % (2 ** 31))
        self.settled_locations()
        # what restoring a network requests stays requested
        self.deadobjs = []
        self.touched = {}
        self.retired = {}
        self.requested = [set() for _ in range(self.n)]
        for e in self.edges.values():
            for u, v in e:
                ou, ov = self.agents[u].owner, self.agents[v].owner
                if ou != ov:
                    self.requested[ou].add(v)
                    self.requested[ov].add(u)
        self.ghosts = [set(x) for x in self.requested]
        self.dead = []
        self.last_order = []
        self.still = set()
        cx.stats["obs_checkpoints"] += 1
        if late:
            cx.stats["obs_late_pickles"] += 1
        cx.nontrivial = cx.nontrivial or len(self.agents) > 1
        order = [a.uid for a in self.ctx.agents()]
        cx.check(order == self.saved_order, "the restored agents are not those saved, in their order", order, self.saved_order)

    # ---------------------------------------------------------------- oracles
    def chk_population(self):
        cx = self.cx
        exp = set(self.orders[self.me])
        got = [a.uid for a in self.ctx.agents()]
        cx.check(len(got) == len(set(got)), "an agent is local twice on one rank", lambda: sorted(got))
        gs = set(got)
        if gs != exp:
            allg = None
            cx.fail("the agents local to this rank are not those that belong here",
                    "missing", sorted(exp - gs), "unexpected", sorted(gs - exp), "removed earlier", sorted((gs - exp) & set(self.dead)))
        for a in self.ctx.agents():
            ref = self.agents[a.uid]
            cx.check(a.val == ref.val, "an agent's state is not the latest one", a.uid, "has", a.val, "expected", ref.val)
            cx.check(a.local_rank == self.me, "a local agent reports another rank as its own", a.uid, a.local_rank)
        cx.stats["obs_local_agents"] += len(exp)

    def chk_location(self, owned=True):
        cx = self.cx
        for uid in self.orders[self.me]:
            ref = self.agents[uid]
            a = self.ctx.agent(uid)
            if a is None:
                cx.fail("an agent is not local to the rank that owns its location", uid, ref.loc, "rank", self.me)
            for nm, k, s in self.spaces:
                pt = s.get_location(a)
                if ref.loc is None:
                    if self.P.get("ops", {}).get("move_agents_c"):
                        continue
                    cx.check(pt is None, "an agent that was never placed has a location", uid, pt)
                    continue
                if nm not in ref.loc:
                    cx.check(pt is None, "an agent that was never placed in a space has a location there", uid, nm, pt)
                    cx.check(a in s, "a local agent is not in a space", uid, nm)
                    continue
                if pt is None:
                    cx.fail("an agent has no location in a space it was moved in", uid, nm, ref.loc)
                c = tuple(pt.coordinates.tolist())
                e = ref.loc[nm]
                if k == "g":
                    cx.check(c == tuple(e), "wrong location", uid, nm, "has", c, "expected", e)
                    cx.check(a in list(s.get_agents(pt)), "an agent is not found at its location", uid, nm, c)
                else:
                    cx.check(all(abs(c[d] - e[d]) <= 1e-6 for d in range(3)), "wrong location", uid, nm, "has", c, "expected", e)
                cx.check(not owned or self.regions[self.me].contains(c), "an agent is on a rank that does not own its location", uid, nm, c, self.regions[self.me])
                cx.stats["obs_locations"] += 1

    def chk_buffer(self):
        """Everything non-local that this rank finds in its spaces."""
        cx = self.cx
        for nm, k, s in self.spaces:
            if self.buf[nm] == 0:
                continue
            exp = self.expected_buffer(self.me, nm)
            if k == "g":
                found = {}
                for c in self.gb.cells():
                    for a in s.get_agents(DiscretePoint(*c)):
                        found.setdefault(a.uid, []).append((c, a))
            else:
                found = {}
                g = self.gb
                box = r4space.BoundingBox(g.mins[0], g.exts[0], g.mins[1], g.exts[1], g.mins[2], g.exts[2])
                for a in s.get_agents_within(box):
                    pt = s.get_location(a)
                    found.setdefault(a.uid, []).append((tuple(pt.coordinates.tolist()), a))
            es = set(exp)
            nl = {u for u in found if not (u in self.agents and self.agents[u].owner == self.me)}
            if nl != es:
                cx.fail("the buffer does not hold exactly the neighbours' nearby agents", nm, "missing",
                        [(u, self.agents[u].loc, self.agents[u].owner) for u in sorted(es - nl)], "unexpected",
                        [(u, [c for c, _ in found[u]], (self.agents[u].owner, self.agents[u].loc) if u in self.agents else "removed") for u in sorted(nl - es)],
                        "region", self.regions[self.me], "buffer", self.buf[nm])
            for u in exp:
                ref = self.agents[u]
                if len(found[u]) != 1:
                    cx.fail("an agent appears more than once in a buffer", nm, u, [c for c, _ in found[u]])
                c, a = found[u][0]
                e = ref.loc[nm]
                cx.check(all(abs(c[d] - e[d]) <= 1e-6 for d in range(3)), "a buffered agent is not at its owner's location", nm, u, c, e)
                cx.check(a.val == ref.val, "a buffered agent does not show its owner's state", nm, u, "has", a.val, "expected", ref.val)
                cx.check(a.local_rank == ref.owner, "a buffered agent reports the wrong owner", nm, u, a.local_rank, ref.owner)
                ga = self.ctx.ghost_agent(u)
                cx.check(ga is a, "a buffered agent is not available as a non-local agent", nm, u)
            for u in set(found) - nl:
                cx.check(len(found[u]) == 1, "a local agent is found more than once in a space", nm, u, [c for c, _ in found[u]])
            if exp:
                cx.nontrivial = True
            cx.stats["obs_buffered"] += len(exp)
            cx.stats["obs_buffer_scans"] += 1

    def chk_requests(self):
        cx = self.cx
        for u in self.requested[self.me]:
            ref = self.agents.get(u)
            if ref is None:
                continue
            if ref.owner == self.me:
                cx.check(self.ctx.agent(u) is not None, "a requested agent that moved here is not local", u)
                continue
            a = self.ctx.ghost_agent(u)
            if a is None:
                cx.fail("a requested agent is no longer available", u, "owner", ref.owner)
            cx.check(a.val == ref.val, "a requested agent does not show its owner's state", u, "has", a.val, "expected", ref.val, "owner", ref.owner)
            cx.check(a.local_rank == ref.owner, "a requested agent reports the wrong owner", u, a.local_rank, ref.owner)
            for nm, d, o in self.nets:
                cx.check(a in o, "a requested agent is missing from a network", u, nm)
            for nm, k, s in self.spaces:
                cx.check(a in s, "a requested agent is missing from a space", u, nm)
            cx.stats["obs_requested"] += 1
        for u in self.dead:
            cx.check(self.ctx.ghost_agent(u) is None, "a copy of a removed agent is still available", u)
        for u in self.orders[self.me]:
            cx.check(self.ctx.ghost_agent(u) is None, "an agent is both local and a non-local copy on one rank", u)

    def chk_ghosts(self):
        """Whatever copies this rank is entitled to show their owner's state."""
        cx = self.cx
        for u in self.ghosts[self.me]:
            ref = self.agents.get(u)
            if ref is None:
                continue
            a = self.ctx.ghost_agent(u)
            if a is None:
                cx.fail("a copy this rank needs is not available", u, "owner", ref.owner)
            cx.check(a.val == ref.val, "a copy does not show its owner's state", u, "has", a.val, "expected", ref.val, "owner", ref.owner)
            cx.stats["obs_ghosts"] += 1
        for u in self.agents:
            if self.agents[u].owner != self.me and u not in self.ghosts[self.me]:
                cx.check(self.ctx.ghost_agent(u) is None, "a copy that is in no buffer, not requested and in no edge of this rank is still available", u)
                cx.stats["obs_no_ghosts"] += 1

    def chk_index(self):
        cx, ctx = self.cx, self.ctx
        exp = list(self.orders[self.me])
        got = [a.uid for a in ctx.agents()]
        # agents received together arrive in an order of the library's choosing, so only own additions are ordered
        cx.check(sorted(got) == sorted(exp), "iteration does not give the local agents", got, exp)
        total = ctx.size()
        cx.check(total == {-1: len(exp)}, "size() is wrong", total, len(exp))
        bytype = {}
        for u in exp:
            bytype.setdefault(u[1], []).append(u)
        for t in self.types + [4]:
            es = bytype.get(t, [])
            cx.check(ctx.contains_type(t) == (len(es) > 0), "contains_type is wrong", t, len(es))
            if es or self.seen_type(t):
                g = [a.uid for a in ctx.agents(agent_type=t)]
                cx.check(sorted(g) == sorted(es), "iteration by type is wrong", t, g, es)
                cx.check(g == [u for u in got if u[1] == t], "iteration by type is not in insertion order", t, g)
                cx.check(ctx.size([t]) == {t: len(es)}, "size([type]) is wrong", t, ctx.size([t]), len(es))
                k = self.rng_local.randint(0, len(es) + 1)
                g = [a.uid for a in ctx.agents(agent_type=t, count=k)]
                cx.check(g == [u for u in got if u[1] == t][:k], "agents(type, count) is wrong", t, k, g)
                g = [a.uid for a in ctx.agents(agent_type=t, shuffle=True)]
                cx.check(sorted(g) == sorted(es), "shuffled iteration by type is wrong", t, g)
                cx.stats["obs_typed"] += 1
        seen = sorted(t for t in self.types if self.seen_type(t))
        if seen:
            cx.check(ctx.size(seen) == {t: len(bytype.get(t, [])) for t in seen}, "size(types) is wrong", ctx.size(seen))
        k = self.rng_local.randint(0, len(exp) + 1)
        g = [a.uid for a in ctx.agents(count=k)]
        cx.check(g == got[:k], "agents(count) is wrong", k, g)
        g = [a.uid for a in ctx.agents(shuffle=True)]
        cx.check(sorted(g) == sorted(exp), "shuffled iteration is not a permutation", g)
        k = self.rng_local.randint(0, len(exp) + 1)
        g = [a.uid for a in ctx.agents(count=k, shuffle=True)]
        cx.check(len(g) == min(k, len(exp)) and len(set(g)) == len(g) and set(g) <= set(exp), "agents(count, shuffle) is wrong", k, g)
        if 2 <= len(exp) <= 6 and self.rng_local.random() < 0.03:
            # a shuffled sample, or the first of a shuffled iteration, may be any of the agents
            first, one, k = set(), set(), self.rng_local.randint(1, len(exp) - 1)
            for _ in range(150):
                first.add(next(iter(ctx.agents(shuffle=True))).uid)
                one.update(a.uid for a in ctx.agents(count=k, shuffle=True))
            cx.check(first == set(exp), "some agent never comes first in 150 shuffled iterations", sorted(set(exp) - first))
            cx.check(one == set(exp), "some agent is never in 150 shuffled samples", k, sorted(set(exp) - one))
            cx.stats["obs_samples"] += 1
        for u in exp:
            a = ctx.agent(u)
            cx.check(a is not None and a.uid == u and (a.id, a.type, a.uid_rank) == u, "lookup by identity is wrong", u)
        for u, ref in self.agents.items():
            if ref.owner != self.me:
                cx.check(ctx.agent(u) is None, "an agent of another rank is found as local", u)
        for u in self.dead[-20:]:
            cx.check(ctx.agent(u) is None, "a removed agent is found by its identity", u)
        self.insertion(got)
        cx.stats["obs_index"] += 1

    def seen_type(self, t):
        return t in self.types_seen

    def insertion(self, got):
        """Insertion order: what was iterated before and is still there comes first, in the same order."""
        prev = [u for u in self.last_order if u in set(got) and u in self.still]
        cx = self.cx
        cx.check(got[:len(prev)] == prev, "unshuffled iteration is not in insertion order", "before", prev, "now", got)
        self.last_order = got
        self.still = set(got)

    def chk_edges(self, what="edges"):
        cx = self.cx
        for nm, d, o in self.nets:
            exp = {}
            for k, at in self.edges[nm].items():
                u, v = k
                if self.agents[u].owner == self.me or self.agents[v].owner == self.me:
                    exp[k] = at
            got = {}
            for a, b, at in o.graph.edges(data=True):
                k = self.key(d, a.uid, b.uid)
                if k in got:
                    cx.fail("an edge appears twice", nm, k)
                got[k] = (at, a, b)
            if set(got) != set(exp):
                miss, extra = set(exp) - set(got), set(got) - set(exp)
                own = lambda u: self.agents[u].owner if u in self.agents else "removed"
                cx.fail("the edges on this rank are not those of its agents", nm, "directed" if d else "undirected",
                        "missing", [(k, [own(x) for x in k]) for k in sorted(miss)], "unexpected",
                        [(k, [own(x) for x in k]) for k in sorted(extra)], "rank", self.me)
            for k, at in exp.items():
                g, a, b = got[k]
                cx.check(dict(g) == at, "an edge does not have the attributes last given to it", nm, k, "has", dict(g), "expected", at)
                for x in (a, b):
                    ref = self.agents[x.uid]
                    cx.check(x.val == ref.val, "an end of an edge does not show its owner's state", nm, k, x.uid, "has", x.val, "expected", ref.val)
                    cx.check(x.local_rank == ref.owner, "an end of an edge reports the wrong owner", nm, k, x.uid, x.local_rank, ref.owner)
                    if ref.owner == self.me:
                        cx.check(x is self.ctx.agent(x.uid), "an edge's local end is not the local agent itself", nm, k, x.uid)
                cx.check(o.contains_edge(a, b), "contains_edge denies an existing edge", nm, k)
                cx.stats["obs_edges"] += 1
                if a.local_rank != b.local_rank:
                    cx.stats["obs_cross_edges"] += 1
                    cx.nontrivial = True
            cx.check(o.edge_count == len(exp), "edge_count is wrong", nm, o.edge_count, len(exp))
            nodes = [x.uid for x in o]
            cx.check(len(nodes) == len(set(nodes)), "an agent is a network node twice", nm, lambda: sorted(nodes))
            ns = set(nodes)
            for u in self.orders[self.me]:
                cx.check(u in ns, "a local agent is not a node of the network", nm, u)
                a = self.ctx.agent(u)
                inc = sum(1 for k in exp if u in k)
                cx.check(o.num_edges(a) == inc, "num_edges is wrong", nm, u, o.num_edges(a), inc)
            cx.stats["obs_nets"] += 1

    def chk_removed(self):
        cx = self.cx
        deadset = set(self.dead)
        for u in self.dead:
            cx.check(self.ctx.agent(u) is None, "a removed agent is still local", u)
            cx.check(self.ctx.ghost_agent(u) is None, "a copy of a removed agent is still available", u, "rank", self.me)
        for nm, d, o in self.nets:
            for x in o:
                cx.check(x.uid not in deadset, "a removed agent is still a network node", nm, x.uid, "rank", self.me)
            for a, b in o.graph.edges():
                cx.check(a.uid not in deadset and b.uid not in deadset, "a removed agent still has an edge", nm, a.uid, b.uid)
        for nm, k, s in self.spaces:
            for a in self.deadobjs:
                cx.check(a not in s and s.get_location(a) is None, "a removed agent is still in a space", nm, a.uid)
            if k == "g":
                for c in self.gb.cells():
                    for a in s.get_agents(DiscretePoint(*c)):
                        cx.check(a.uid not in deadset, "a removed agent is still found at a location", nm, a.uid, c)
            else:
                g = self.gb
                for a in s.get_agents_within(r4space.BoundingBox(g.mins[0], g.exts[0], g.mins[1], g.exts[1], g.mins[2], g.exts[2])):
                    cx.check(a.uid not in deadset, "a removed agent is still found in a space", nm, a.uid)
        cx.stats["obs_removed"] += len(self.dead)
        if self.dead:
            cx.nontrivial = True


def weighted(rng, d):
    t = sum(d.values())
    x = rng.random() * t
    for k, w in d.items():
        x -= w
        if x < 0:
            return k
    return k


MIX = {"add": 0.8, "remove": 0.5, "mutate": 1.5, "move": 3.0, "edge_add": 2.0, "edge_update": 0.5, "edge_remove": 1.0, "edge_clear": 0.04, "request_c": 0.6, "move_agents_c": 0.25}


def variant(P, rng):
    """The profile of this case: the property's own, or a mixture of every feature; weights vary from case to case."""
    Q = dict(P)
    if P.get("p_mix") and rng.random() < P["p_mix"]:
        sp = ["none", "g", "c", "gc", "gg", "cg", "ccg"]
        Q["spaces"] = sp if "none" in P["spaces"] else sp[1:]
        Q["nnets"] = [0, 1, 1, 2, 3]
        Q["p_noghost"] = 0.0
        Q["req_any"] = Q["rereq"] = True
        Q["ops"] = {k: max(P["ops"].get(k, 0), MIX.get(k, 0)) for k in set(P["ops"]) | set(MIX)}
        Q["p_late_net"] = 0.06
        Q["mixed"] = True
    if rng.random() < 0.5:
        ops = Q["ops"]
        Q["ops"] = {k: min(w * f, 0.9) if k.endswith("_c") else w * f for k, w in sorted(ops.items()) for f in [rng.choice([0.2, 0.5, 1, 1, 2, 4])]}
    c = rng.random()
    if c < 0.012:
        Q["init"], Q["nops"], Q["steps"], Q["crowd"] = [60, 160], [0, 60], [1, 3], True
    elif c < 0.05:
        Q["init"], Q["nops"] = [8, 40], [0, 12]
    elif c < 0.12:
        Q["init"], Q["steps"] = [1, 4], [10, 30]
    return Q


def case(cx):
    rng = cx.rng
    P = variant(cx.profile, rng)
    m = Model(cx, P)
    import random as pr
    m.rng_local = pr.Random(cx.case_seed * 131 + cx.rank)
    m.types_seen = set()
    m.last_order = []
    m.still = set()
    n = cx.size
    for r in range(n):
        for _ in range(rng.randint(*P.get("init", [1, 5]))):
            m.op_add(r)
    if P.get("crowd"):
        cx.stats["obs_crowds"] += 1
    steps = rng.randint(*P.get("steps", [2, 8]))
    oracles = P["oracles"]
    W = P["ops"]
    ghosts_possible = P.get("p_noghost", 0.0)

    def note_types():
        for u in m.orders[cx.rank]:
            m.types_seen.add(u[1])

    def verify(ghosts=True):
        note_types()
        if "population" in oracles:
            m.chk_population()
        if "location" in oracles and ghosts is not None:
            m.chk_location()
        if ghosts:
            if "buffer" in oracles:
                m.chk_buffer()
            if "requests" in oracles:
                m.chk_requests()
            if "edges" in oracles:
                m.chk_edges()
            if "ghosts" in oracles:
                m.chk_ghosts()
            if "removed" in oracles:
                m.chk_removed()
        if "index" in oracles:
            m.chk_index()

    m.sync()
    verify()
    for step in range(steps):
        if len(m.nets) < 4 and rng.random() < P.get("p_late_net", 0.0):
            m.op_late_net()
        if n > 1 and W.get("request_c") and rng.random() < W["request_c"]:
            reqs = []
            for r in range(n):
                c = [u for u, ref in m.agents.items() if ref.owner != r and (P.get("req_any") or u not in m.ghosts[r])
                     and (P.get("rereq") or u not in m.requested[r])]
                rng.shuffle(c)
                reqs.append(c[:rng.choice([0, 0, 1, 2, 3, 90][:6 if P.get("crowd") else 5])])
            m.op_request(reqs)
        for r in range(n):
            for _ in range(rng.randint(*P.get("nops", [0, 4]))):
                do_op(m, r, W)
                note_types()
        if W.get("checkpoint_c") and rng.random() < W["checkpoint_c"]:
            # networks are saved in the synchronised state; locations, states and additions may be ahead of it
            if m.nets:
                m.sync()
                verify()
            if rng.random() < 0.6:
                for r in range(n):
                    for _ in range(rng.randint(0, 2)):
                        do_op(m, r, {"mutate": 1.0, "move": 3.0, "add": 0.5})
                note_types()
            m.saved_order = [a.uid for a in m.ctx.agents()]

            def churn(m):
                for _ in range(rng.randint(0, 2)):
                    for r in range(n):
                        for _ in range(rng.randint(0, 4)):
                            do_op(m, r, W)
                    if rng.random() < 0.6:
                        m.sync()
            m.op_checkpoint(churn, bool(m.nets))
            verify(None)
            m.chk_location(owned=False)     # as saved, before anything synchronises
            m.chk_edges()
            m.sync()
            verify()
            continue
        if W.get("move_agents_c") and n > 1 and rng.random() < W["move_agents_c"]:
            mv = []
            for r in range(n):
                c = list(m.orders[r])
                if P.get("ma_unconnected"):
                    c = [u for u in c if not any(u in k for e in m.edges.values() for k in e)]
                rng.shuffle(c)
                mv.append([(u, rng.randrange(n)) for u in c[:rng.choice([0, 0, 1, 1, 2, 4, 90][:7 if P.get("crowd") else 6])]])
                mv[-1] = [(u, d) for u, d in mv[-1] if d != r]
            m.op_move_agents(mv)
            verify()
            continue
        g = rng.random() >= ghosts_possible
        if not g and P.get("noghost_only_unbuffered") and any(m.buf.values()):
            g = True
        if not g:
            m.sync(False)
            verify(False)
        m.sync()
        verify()


def do_op(m, r, W):
    rng, cx = m.rng, m.cx
    mine = m.orders[r]
    k = weighted(rng, {a: b for a, b in W.items() if not a.endswith("_c")})
    if k == "add":
        m.op_add(r, place=True)
        return
    if not mine:
        return
    u = rng.choice(mine)
    if k == "remove":
        m.op_remove(u)
    elif k == "mutate":
        m.op_mutate(u)
    elif k == "move" and m.spaces:
        c = rng.random()
        if c < 0.35:
            p = m.rand_loc(r)
        elif c < 0.75:
            p = m.rand_loc(rng.randrange(m.n))
        elif c < 0.85 and m.agents[u].loc is not None:
            q = next(iter(m.agents[u].loc.values()))
            p = tuple(q[d] + (rng.randint(-3, 3) if d < m.gb.nd else 0) for d in range(3))
        else:
            p = m.rand_loc(None, wild=True)
        m.op_move(u, p)
    elif k == "edge_add" and m.nets:
        nm, d, o = rng.choice(m.nets)
        cand = [x for x in mine if x != u]
        g = sorted(x for x in m.ghosts[r] if x in m.agents and m.agents[x].owner != r)
        if m.P.get("edge_ghosts", "any") == "requested":
            g = [x for x in g if x in m.requested[r] or any((x in k2) for k2 in m.edges[nm])]
        if g and rng.random() < 0.6:
            v = rng.choice(g)
        elif rng.random() < 0.08:
            v = u           # an edge from an agent to itself
            cx.stats["obs_self_loops"] += 1
        elif cand:
            v = rng.choice(cand)
        else:
            return
        # the same cross-rank edge may be created from one side only between two synchronisations
        key = m.key(d, u, v)
        cross = m.agents[v].owner != r
        if cross and not m.P.get("both_sides"):
            if m.touched.get((nm, key), r) != r:
                return
            m.touched[(nm, key)] = r
        if rng.random() < 0.5:
            u, v = v, u
            if d:
                key = m.key(d, u, v)
                if cross and not m.P.get("both_sides"):
                    if m.touched.get((nm, key), r) != r:
                        return
                    m.touched[(nm, key)] = r
        m.creator.setdefault((nm, m.key(d, u, v)), r)
        m.op_edge_add(r, nm, u, v)
    elif k == "edge_clear" and m.nets:
        nm, d, o = rng.choice(m.nets)
        es = sorted(e for e in m.edges[nm] if m.agents[e[0]].owner == r or m.agents[e[1]].owner == r)
        if all(m.touched.get((nm, e), r) == r for e in es):
            for e in es:
                m.touched[(nm, e)] = r
            m.op_edge_clear(r, nm, es)
    elif k in ("edge_update", "edge_remove") and m.nets:
        nm, d, o = rng.choice(m.nets)
        es = sorted(e for e in m.edges[nm] if m.agents[e[0]].owner == r or m.agents[e[1]].owner == r)
        es = [e for e in es if m.touched.get((nm, e), r) == r]
        # both ends must be visible here
        es = [e for e in es if all(m.agents[x].owner == r or x in m.ghosts[r] for x in e)]
        if not es:
            return
        e = rng.choice(es)
        m.touched[(nm, e)] = r
        a, b = e if d or rng.random() < 0.5 else (e[1], e[0])
        if k == "edge_update":
            m.op_edge_update(r, nm, a, b)
        else:
            m.creator.pop((nm, e), None)
            m.op_edge_remove(r, nm, a, b)

