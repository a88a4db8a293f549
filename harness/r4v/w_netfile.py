"""Graph files: partitioned, written, parsed independently, read on many ranks or one, and lived with for a while."""
import json
import os
import sys
import types

import networkx as nx
import numpy as np
from repast4py import core as r4core
from repast4py import random as r4r
from repast4py.context import SharedContext
from repast4py.network import UndirectedSharedNetwork, read_network, write_network
from repast4py.space import BorderType, BoundingBox, OccupancyType, SharedGrid


class Node(r4core.Agent):
    def __init__(self, nid, typ, rank, attrs):
        super().__init__(nid, typ, rank)
        self.attrs = attrs

    def save(self):
        return (self.uid, json.dumps(self.attrs))

    def update(self, data):
        self.attrs = json.loads(data)


def create(nid, agent_type, rank, **attrs):
    return Node(nid, agent_type, rank, attrs)


def metis(rng, calls):
    """A stand-in for the partitioning library, which is not installed: any partition it might answer."""
    m = types.ModuleType("nxmetis")

    def partition(graph, nparts, **kw):
        ids = list(graph.nodes)
        rng.shuffle(ids)
        full = rng.sample(range(nparts), rng.randint(1, nparts))
        parts = [[] for _ in range(nparts)]
        for i in ids:
            parts[rng.choice(full)].append(i)
        calls.append((nparts, kw, parts))
        return len(ids), parts
    m.partition = partition
    return m


class Other(r4core.Agent):
    """An agent of the model that has nothing to do with the file."""

    def __init__(self, nid, rank):
        super().__init__(nid, 99, rank)

    def save(self):
        return (self.uid, "other")

    def update(self, data):
        pass


class Restore:
    def __init__(self, cached):
        self.cache = {} if cached else None

    def __call__(self, data):
        uid, js = data
        if self.cache is not None and uid in self.cache:
            a = self.cache[uid]
            a.attrs = json.loads(js)
            return a
        a = Node(uid[0], uid[1], uid[2], json.loads(js))
        if self.cache is not None:
            self.cache[uid] = a
        return a


STR = ["", "x", "a b", "}", "{", "{}", "a}b {c", '"', "\\", "\n", "é", "日本", "EDGES", "  two ", "1 2", "]["]


def jval(rng, depth=0):
    k = rng.random()
    if k < 0.3:
        return rng.choice([0, 1, -5, 10 ** 15, rng.randint(-99, 99)])
    if k < 0.5:
        return rng.choice([0.5, 1e-7, -2.25, 0.1, rng.random()])
    if k < 0.75:
        return rng.choice(STR)
    if k < 0.85 or depth > 2:
        return rng.choice([True, False, None])
    if k < 0.93:
        return [jval(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(["k", "l m", "}", "{z", ""]): jval(rng, depth + 1) for _ in range(rng.randint(0, 3))}


def attributes(rng, names, p):
    if rng.random() > p:
        return {}
    return {n: jval(rng) for n in rng.sample(names, rng.randint(1, len(names)))}


def graph(rng):
    directed = rng.random() < 0.5
    g = nx.DiGraph() if directed else nx.Graph()
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 60])
    ids = rng.choice([list(range(n)), rng.sample(range(1000), n), [x * 7 + 100000 for x in range(n)]])
    rng.shuffle(ids)
    pa, pe = rng.choice([0, 0.5, 1]), rng.choice([0, 0.5, 1])
    types = rng.choice([None, [0], [0, 1, 2], [3, 7]])
    nn = ["age", "name", "type_", "v1", "rank_", "energy"]
    for i in ids:
        a = attributes(rng, nn, pa)
        if types and rng.random() < 0.9:
            t = rng.choice(types)
            a["agent_type"] = t if rng.random() < 0.8 else str(t)
        g.add_node(i, **a)
    m = rng.choice([0, n, 2 * n, 4 * n]) if n else 0
    hub = ids[0] if n else None
    for _ in range(m):
        u, v = rng.choice(ids), rng.choice(ids)
        if rng.random() < 0.25:
            u = hub
        if rng.random() < 0.1:
            v = u
        g.add_edge(u, v, **attributes(rng, ["weight", "since", "x y", "d"], pe))
        if directed and rng.random() < 0.2:
            g.add_edge(v, u, **attributes(rng, ["weight"], pe))
    return g


def same(a, b):
    """Equal JSON values, types included."""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def parse(cx, path, g, name, n_ranks):
    """Reads the file by the documented format and compares it with the graph; returns the assignment."""
    with open(path) as f:
        lines = f.read().split("\n")
    cx.check(lines[-1] == "", "the network file does not end with a line end", lines[-1])
    lines = lines[:-1]
    cx.check(lines[0] == f"{name} {1 if g.is_directed() else 0}", "the first line of the network file is wrong", lines[0])
    cx.check(lines.count("EDGES") == 1, "the network file has not one EDGES line")
    e = lines.index("EDGES")
    asg, typ = {}, {}
    for l in lines[1:e]:
        p = l.split(" ", 3)
        nid, t, r = int(p[0]), int(p[1]), int(p[2])
        cx.check(nid not in asg, "a node is written twice", l)
        cx.check(0 <= r < n_ranks, "a node is assigned to a rank that does not exist", l, n_ranks)
        a = json.loads(p[3]) if len(p) > 3 else {}
        want = dict(g.nodes[nid])
        wt = int(want.pop("agent_type", 0))
        cx.check(t == wt and same(a, want), "a node is written with other attributes", l, want, wt)
        asg[nid], typ[nid] = r, t
    cx.check(set(asg) == set(g.nodes), "the nodes in the file are not those of the graph", set(asg) ^ set(g.nodes))
    left = {}
    for u, v, a in g.edges(data=True):
        left[(u, v) if g.is_directed() else (min(u, v), max(u, v))] = a
    for l in lines[e + 1:]:
        p = l.split(" ", 2)
        u, v = int(p[0]), int(p[1])
        k = (u, v) if g.is_directed() else (min(u, v), max(u, v))
        cx.check(k in left, "an edge is written twice or is not in the graph", l)
        cx.check(same(json.loads(p[2]) if len(p) > 2 else {}, left.pop(k)), "an edge is written with other attributes", l)
    cx.check(not left, "edges are missing in the file", lambda: list(left)[:5])
    cx.stats["obs_file_nodes"] += len(asg)
    cx.stats["obs_file_edges"] += g.number_of_edges()
    return asg, typ


def judge(cx, ctx, net, g, asg, typ, state, what):
    """This rank's graph and population against the file's."""
    me = cx.rank
    one = cx.size == 1
    mine = {n for n in g.nodes if one or asg[n] == me}
    got = [a for a in ctx.agents() if a.uid[1] != 99]
    cx.check(len(got) == len(set(a.uid for a in got)) and {a.uid for a in got} == {(n, typ[n], asg[n]) for n in mine},
             "a rank does not hold exactly the agents assigned to it " + what, lambda: sorted(a.uid for a in got), lambda: sorted(mine))
    for a in got:
        cx.check(same(a.attrs, state[a.uid[0]]), "an agent was created with other attributes " + what, a.uid, a.attrs, state[a.uid[0]])
        cx.check(a.local_rank == me, "an agent read from a file is not local", a.uid, a.local_rank)
        cx.check(net.graph.has_node(a), "an agent is not a node of the network " + what, a.uid)
    want = {}
    for u, v, a in g.edges(data=True):
        if u in mine or v in mine:
            want[(u, v) if g.is_directed() else (min(u, v), max(u, v))] = a
    have = {}
    for u, v, a in net.graph.edges(data=True):
        k = (u.uid[0], v.uid[0])
        if not g.is_directed():
            k = (min(k), max(k))
        cx.check(k not in have, "an edge exists twice on a rank " + what, k)
        have[k] = a
        for x in (u, v):
            n = x.uid[0]
            cx.check(x.uid == (n, typ[n], asg[n]), "an end of an edge has another identity " + what, x.uid)
            if n in mine:
                cx.check(ctx.agent(x.uid) is x, "a local end of an edge is not the local agent " + what, x.uid)
            else:
                cx.check(ctx.ghost_agent(x.uid) is x and x.local_rank == asg[n], "a remote end of an edge is not a copy of its agent " + what, x.uid, x.local_rank)
                cx.check(same(x.attrs, state[n]), "a remote end of an edge has another state " + what, x.uid, x.attrs, state[n])
                cx.stats["obs_remote_ends"] += 1
    cx.check(set(have) == set(want), "the edges on a rank are not those of its agents " + what, "missing", lambda: sorted(set(want) - set(have))[:5], "extra", lambda: sorted(set(have) - set(want))[:5])
    for k in have:
        cx.check(same(have[k], want[k]), "an edge has other attributes " + what, k, have[k], want[k])
    others = sorted(a.uid for a in ctx.agents() if a.uid[1] == 99)
    cx.check(others == cx.cache["others"] and others == sorted(a.uid for a in net.graph.nodes if a.uid[1] == 99), "agents that were there before are lost or doubled " + what, others, cx.cache["others"])
    nodes = {a.uid[0] for a in net.graph.nodes if a.uid[1] != 99}
    ends = {n for k in want for n in k}
    # copies requested for edges that are gone may stay
    cx.check(nodes == mine | ends or (what != "after reading" and nodes >= mine | ends and nodes <= mine | ends | cx.cache["ever"]), "the graph of a rank has other nodes than its agents and their neighbours " + what, lambda: nodes ^ (mine | ends))
    cx.stats["obs_agents"] += len(got)
    cx.stats["obs_edges"] += len(want)


def many(cx, rng, path):
    """A graph of another size, written for another number of ranks; only the file is judged."""
    parts = rng.choice([rng.randint(1, 9), rng.randint(10, 64)])
    h = nx.DiGraph() if rng.random() < 0.5 else nx.Graph()
    k = rng.choice([rng.randint(1, 12), parts * rng.randint(1, 3) + rng.randint(-1, 2), rng.randint(1, 300)])
    h.add_nodes_from(rng.sample(range(1000), max(1, k)))
    ids = list(h.nodes)
    h.add_edges_from((rng.choice(ids), rng.choice(ids)) for _ in range(rng.randint(0, 8)))
    kw = {"partition_method": "random"} if rng.random() < 0.5 else {}
    if rng.random() < 0.5:
        kw["rng"] = np.random.default_rng(rng.randint(0, 10 ** 6))
    write_network(h, "more", path, parts, **kw)
    parse(cx, path, h, "more", parts)
    os.remove(path)
    cx.stats["obs_many_parts"] += parts > 9


def refuse(cx, rng_own, parts):
    """A graph that cannot be written as documented."""
    if rng_own.random() > 0.1:
        return
    h = nx.Graph()
    h.add_node(1, agent_type=rng_own.choice([-1, "x", None, [], -7, "1.5"]))
    bad = os.path.join(cx.workdir, f"bad{cx.size}-{cx.case_seed:x}.txt")
    try:
        write_network(h, "bad", bad, parts)
    except ValueError:
        pass
    else:
        cx.fail("a type that is not a number was written", h.nodes[1])
    finally:
        if os.path.exists(bad):
            os.remove(bad)
    cx.stats["obs_refused_writes"] += 1


def broken(cx, path, name):
    """A file that does not follow the format is refused (on every rank alike)."""
    rng = __import__("random").Random(cx.case_seed + 8)
    lines = open(path).read().split("\n")
    e = lines.index("EDGES", 1)
    k = rng.choice(["head", "node", "extra", "type"] + (["edge", "ends", "json"] if cx.size == 1 else []))
    if k == "head":
        lines[0] = rng.choice([name, f"{name} x", f"{name} 0 1", ""])
    elif k == "node":
        lines.insert(rng.randint(1, e), rng.choice(["5000", "5000 0", "x 0 0", "5000 a 0", "5000 0 b"]))
    elif k == "extra":
        lines.insert(e, "EDGE")
    elif k == "type":
        lines.insert(e, "5000 1.5 0")
    elif k == "edge":
        lines.insert(rng.randint(e + 1, len(lines) - 1), rng.choice(["5000", "a b"]))
    elif k == "ends":
        if e == 1:
            return
        lines.insert(rng.randint(e + 1, len(lines) - 1), f"{lines[1].split()[0]} 123456789")
    else:
        lines.insert(rng.randint(1, e), "5000 0 0 {'a': 1}")
    p2 = path + ".broken"
    cx.ctl.Barrier()
    if cx.rank == 0:
        with open(p2, "w") as f:
            f.write("\n".join(lines))
    cx.ctl.Barrier()
    ctx = SharedContext(cx.comm)
    try:
        read_network(p2, ctx, create, Restore(False))
    except ValueError:
        pass
    else:
        cx.fail("a file that does not follow the format is read without an error", k, lines[0])
    cx.stats["obs_broken"] += 1
    cx.ctl.Barrier()
    if cx.rank == 0:
        os.remove(p2)


def case(cx):
    rng = cx.rng
    n = cx.size
    g = graph(rng)
    parts = n if n > 1 or rng.random() < 0.4 else rng.randint(1, 7)
    name = rng.choice(["net", "friend_network", "n-1", "EDGES"])
    path = os.path.join(cx.workdir, f"net{n}-{cx.case_seed:x}.txt")
    kw = {}
    how = rng.random()
    if how < 0.3:
        kw["partition_method"] = "random"
    if rng.random() < 0.3:
        kw["rng"] = "default"
    elif rng.random() < 0.2:
        kw["rng"] = np.random.default_rng(rng.randint(0, 10 ** 6))
    cx.config(n=n, parts=parts, nodes=g.number_of_nodes(), edges=g.number_of_edges(), directed=g.is_directed())
    cx.op("write", name, sorted(kw), sorted(g.edges)[:20], [sorted(a) for _, a in g.nodes(data=True)][:10])
    calls = []
    if how > 0.75:
        kw = {"partition_method": "metis"}
        if rng.random() < 0.5:
            kw["recursive"] = True
    before = nx.node_link_data(g, edges="links")
    own = None
    prng = __import__("random").Random(cx.case_seed + 9)
    if cx.rank == 0:
        own = repr(before)
        if "metis" in kw.values():
            sys.modules["nxmetis"] = metis(prng, calls)
        try:
            write_network(g, name, path, parts, **kw)
        finally:
            sys.modules.pop("nxmetis", None)
        refuse(cx, rng_own=prng, parts=parts)
        if prng.random() < 0.5:
            for _ in range(3):
                many(cx, prng, path + ".more")
        cx.check(repr(nx.node_link_data(g, edges="links")) == own, "writing a graph changes it")
    cx.ctl.Barrier()
    asg, typ = parse(cx, path, g, name, parts)
    if "metis" in kw.values():
        if cx.rank == 0:
            want = {i: r for r, p in enumerate(calls[0][2]) for i in p}
            cx.check(len(calls) == 1 and calls[0][0] == parts and asg == want and ("recursive" in kw) == ("recursive" in calls[0][1]), "the partition that was asked for is not the one written", asg, want)
            cx.stats["obs_metis"] += 1
    cnt = [] if "metis" in kw.values() else [list(asg.values()).count(r) for r in range(parts)]
    cx.check(not cnt or max(cnt) - min(cnt) <= 1 or max(cnt) <= -(-len(asg) // parts), "random partitioning is not uniform over the ranks", cnt)
    if n > 1 and rng.random() < 0.35 and len(asg):
        # any other assignment is as good: rewrite the file by hand, unbalanced
        full = rng.sample(range(n), rng.randint(1, n))
        lines = open(path).read().split("\n")
        e = lines.index("EDGES", 1)
        for i in range(1, e):
            p = lines[i].split(" ", 3)
            p[2] = str(full[int(p[0]) * 7 % len(full)])
            asg[int(p[0])] = int(p[2])
            lines[i] = " ".join(p)
        cx.ctl.Barrier()
        if cx.rank == 0:
            with open(path, "w") as f:
                f.write("\n".join(lines))
        cx.ctl.Barrier()
        cx.stats["obs_unbalanced"] += 1
    ctx = SharedContext(cx.comm)
    cx.cache["others"] = []
    base = Restore(rng.random() < 0.5)

    def restore(data):
        return Other(data[0][0], data[0][2]) if data[0][1] == 99 else base(data)
    if rng.random() < 0.3:
        # the file joins a model that has agents and projections already
        old = UndirectedSharedNetwork("old", cx.comm) if rng.random() < 0.5 else None
        if old is not None:
            ctx.add_projection(old)
        if rng.random() < 0.5:
            ctx.add_projection(SharedGrid("oldgrid", BoundingBox(0, 4 * n, 0, 4 * n), BorderType.Sticky, OccupancyType.Multiple, 1, cx.comm))
        for i in range(rng.randint(0, 3)):
            ctx.add(Other(i + 1, cx.rank))
            cx.cache["others"].append((i + 1, 99, cx.rank))
        cx.stats["obs_joined"] += 1
    if rng.random() < 0.1:
        broken(cx, path, name)
    read_network(path, ctx, create, restore)
    net = ctx.get_projection(name)
    cx.check(net.is_directed == g.is_directed(), "the network read has another direction")
    state = {i: {k: v for k, v in g.nodes[i].items() if k != "agent_type"} for i in g.nodes}
    judge(cx, ctx, net, g, asg, typ, state, "after reading")
    cx.cache["ever"] = {a.uid[0] for a in net.graph.nodes if a.uid[1] != 99}
    # life goes on: states change, edges go, synchronisation keeps everything consistent
    for step in range(rng.randint(0, 3)):
        for i in sorted(state):
            if rng.random() < 0.5:
                state[i] = {"s": step, "r": rng.randint(0, 99)}
                a = ctx.agent((i, typ[i], asg[i]))
                if a is not None:
                    a.attrs = dict(state[i])
        for u, v in sorted(g.edges):
            if rng.random() < 0.15 and u != v:
                g.remove_edge(u, v)
                # the rank of the first end removes it
                if n == 1 or asg[u] == cx.rank:
                    us, vs = (u, typ[u], asg[u]), (v, typ[v], asg[v])
                    net.remove_edge(ctx.agent(us), ctx.agent(vs) or ctx.ghost_agent(vs))
                cx.op("remove", u, v)
        ctx.synchronize(restore)
        # remote ends without edges need not stay
        judge(cx, ctx, net, g, asg, typ, state, "after reading and synchronising")
        cx.stats["obs_later_syncs"] += 1
    if n > 1 and any(asg[u] != asg[v] for u, v in g.edges):
        cx.nontrivial = True
    if n == 1 and parts > 1 and g.number_of_edges():
        cx.nontrivial = True
        cx.stats["obs_read_on_one"] += 1
    cx.ctl.Barrier()
    if cx.rank == 0:
        os.remove(path)
