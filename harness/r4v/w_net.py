"""Networks at every moment: after each operation the acting rank's network must answer every query as its graph says.

One script on all ranks; an operation changes the acting rank's view at once and the others' at the next synchronisation. An edge
between ranks is only ever touched by one of them, so that the outcome never depends on who wins.
"""
from repast4py import context as r4ctx
from repast4py.network import DirectedSharedNetwork, UndirectedSharedNetwork

from .w_dist import Ag, Restorer


class Net:
    def __init__(self, nm, directed, obj, n):
        self.nm, self.d, self.o = nm, directed, obj
        self.all = {}                           # the graph of the model
        self.view = [{} for _ in range(n)]      # what each rank must see
        self.left = set()                       # agents taken out of this network only

    def key(self, u, v):
        return (u, v) if self.d or u <= v else (v, u)


def case(cx):
    rng, n, me = cx.rng, cx.size, cx.rank
    ctx = r4ctx.SharedContext(cx.comm)
    nets = []
    seq = [0]
    owner, dead, mine = {}, set(), [[] for _ in range(n)]
    req = [set() for _ in range(n)]
    nid = [0] * n
    editor = {}
    restore = Restorer(rng.random() < 0.5)
    cx.config(n=n)

    def add_net():
        d = rng.random() < 0.5
        nm = f"n{len(nets)}"
        cx.op("net", nm, "directed" if d else "undirected")
        o = (DirectedSharedNetwork if d else UndirectedSharedNetwork)(nm, cx.comm)
        nets.append(Net(nm, d, o, n))
        ctx.add_projection(o)

    def add_agent(r):
        u = (nid[r], rng.choice([0, 1]), r)
        nid[r] += 1
        owner[u] = r
        mine[r].append(u)
        cx.op("add", u)
        if me == r:
            a = Ag(u[0], u[1], u[2], 0)
            ctx.add(a)
            if restore.cached:
                restore.cache[u] = a

    def obj(u):
        a = ctx.agent(u) if owner[u] == me else ctx.ghost_agent(u)
        if a is None:
            cx.fail("an agent that should be available on this rank cannot be found", u)
        return a

    def new_attrs():
        seq[0] += 1
        at = {rng.choice(["w", "w", "x", "label"]): rng.choice([seq[0], seq[0] * 0.5, "s%d" % seq[0], 0, None, [seq[0]]])}
        return at if rng.random() < 0.85 else {}

    def restrict(t, r):
        return {k: v for k, v in t.all.items() if r in (owner.get(k[0]), owner.get(k[1]))}

    def look(t, last):
        """Everything this rank's network says, against its view."""
        o, exp = t.o, t.view[me]
        st = cx.stats
        got = {}
        for a, b, at in o.graph.edges(data=True):
            got[t.key(a.uid, b.uid)] = dict(at)
        cx.check(got == exp, "a network's edges are not those left by the operations", t.nm, "directed" if t.d else "undirected", "after", last,
                 lambda: ("missing", [k for k in exp if k not in got], "unexpected", [k for k in got if k not in exp], "other attributes",
                          [(k, got[k], exp[k]) for k in got if k in exp and got[k] != exp[k]]))
        cx.check(o.edge_count == len(exp), "edge_count is wrong", t.nm, o.edge_count, len(exp), "after", last)
        nodes = list(o)
        ids = [x.uid for x in nodes]
        ns = set(ids)
        cx.check(len(ns) == len(ids), "an agent is a network node twice", t.nm, ids)
        cx.check(o.node_count == len(ids), "node_count is wrong", t.nm, o.node_count, len(ids))
        cx.check(o.is_directed is t.d, "is_directed is wrong", t.nm, o.is_directed)
        for u in mine[me]:
            cx.check((u in ns) == (u not in t.left), "a network's nodes are not the agents added to it", t.nm, u, "in" if u in ns else "missing", "after", last)
        for u in req[me]:
            if u in owner:
                cx.check(u in ns, "a requested agent is not a network node", t.nm, u, "after", last)
        for k in exp:
            cx.check(k[0] in ns and k[1] in ns, "the end of an edge is not a node", t.nm, k)
        for x in nodes:
            inc = sum(1 for k in exp if x.uid in k)
            cx.check(o.num_edges(x) == inc, "num_edges is wrong", t.nm, x.uid, o.num_edges(x), inc, "after", last)
            cx.check(x in o, "an agent that is a node is not in the network", t.nm, x.uid)
            st["obs_degrees"] += 1
        for _ in range(8):
            if not nodes:
                break
            a, b = rng_me.choice(nodes), rng_me.choice(nodes)
            cx.check(o.contains_edge(a, b) == (t.key(a.uid, b.uid) in exp), "contains_edge is wrong", t.nm, a.uid, b.uid, o.contains_edge(a, b), "after", last)
            st["obs_pairs"] += 1
        for k in list(exp)[:5]:
            a, b = obj(k[0]), obj(k[1])
            if t.d and k[0] != k[1]:
                cx.check(o.contains_edge(a, b), "contains_edge denies an existing edge", t.nm, k)
                if (k[1], k[0]) not in exp:
                    cx.check(not o.contains_edge(b, a), "a directed edge exists in the other direction, too", t.nm, k)
                    st["obs_one_way"] += 1
            elif not t.d:
                cx.check(o.contains_edge(a, b) and o.contains_edge(b, a), "an undirected edge exists in one direction only", t.nm, k)
        st["obs_networks"] += 1
        st["obs_view_edges"] += len(exp)
        if owner and any(owner[k[0]] != owner[k[1]] for k in exp):
            st["obs_cross"] += 1

    import random as pr
    rng_me = pr.Random(cx.case_seed * 31 + me)

    def sync():
        cx.op("sync")
        ctx.synchronize(restore)
        for t in nets:
            t.all = {k: v for k, v in t.all.items() if k[0] in owner and k[1] in owner}
            t.view = [restrict(t, r) for r in range(n)]
            t.view = [{k: dict(v) for k, v in x.items()} for x in t.view]
            look(t, "sync")

    def put(t, r, k, at):
        """An edge as seen by the acting rank, and by the model."""
        if at is None:
            t.view[r].pop(k, None)
            t.all.pop(k, None)
        else:
            for g in (t.view[r], t.all):
                g.setdefault(k, {}).update(at)

    late = rng.random() < 0.3
    if not late:
        add_net()
    for r in range(n):
        for _ in range(rng.randint(1, 6)):
            add_agent(r)
    add_net()
    if n > 1 and rng.random() < 0.9:
        reqs = [[u for u in owner if owner[u] != r and rng.random() < 0.5] for r in range(n)]
        cx.op("request", reqs)
        ctx.request_agents([(u, owner[u]) for u in reqs[me]], restore)
        for r in range(n):
            req[r] |= set(reqs[r])
    for t in nets:
        look(t, "start")
    for _ in range(rng.choice([5, 15, 30, 60])):
        r = rng.randrange(n)
        t = rng.choice(nets)
        k = rng.random()
        if k < 0.08:
            add_agent(r)
            if me == r:
                for t in nets:
                    look(t, "add")
            continue
        if k < 0.11 and len(mine[r]) > 1:
            u = rng.choice(mine[r])
            if any(u in x.left for x in nets):
                continue
            cx.op("remove", u)
            if me == r:
                ctx.remove(ctx.agent(u))
                restore.cache.pop(u, None)
            mine[r].remove(u)
            del owner[u]
            dead.add(u)
            for x in nets:
                for g in (x.view[r], x.all):
                    for e in [e for e in g if u in e]:
                        del g[e]
            if me == r:
                for t in nets:
                    look(t, f"remove {u}")
            # others may not use the agent any more
            if n > 1:
                for q in range(n):
                    req[q].discard(u)
                sync()
            continue
        if k < 0.18 and n > 1:
            sync()
            continue
        if k < 0.20:
            if n > 1:
                sync()
            cx.op("clear", t.nm, r)
            for e in list(t.view[r]):
                put(t, r, e, None)
            if me == r:
                t.o.clear_edges()
                look(t, "clear_edges")
            cx.stats["obs_cleared"] += 1
            if n > 1:
                sync()
            continue
        if k < 0.23 and mine[r]:
            # out of this network, and back into it
            u = rng.choice(mine[r])
            if u in t.left:
                cx.op("into", t.nm, u)
                t.left.discard(u)
                if me == r:
                    if rng_me.random() < 0.5:
                        t.o.add(ctx.agent(u))
                    else:
                        t.o.add_nodes([ctx.agent(u), ctx.agent(mine[r][0])] if mine[r][0] not in t.left else [ctx.agent(u)])
            else:
                if n > 1:
                    sync()
                cx.op("out of", t.nm, u)
                t.left.add(u)
                for e in [e for e in t.view[r] if u in e]:
                    put(t, r, e, None)
                if me == r:
                    t.o.remove(ctx.agent(u))
            if me == r:
                look(t, f"in/out {u}")
            if n > 1:
                sync()
            cx.stats["obs_in_out"] += 1
            continue
        cand = list(mine[r]) + [u for u in req[r] if u in owner]
        if not mine[r]:
            continue
        a = rng.choice(mine[r])
        b = a if rng.random() < 0.07 else rng.choice(cand)
        if rng.random() < 0.45 and t.view[r]:
            a, b = rng.choice(sorted(t.view[r]))
            if rng.random() < 0.3:
                a, b = b, a
            if a not in owner or b not in owner:
                continue
        if owner[a] != owner[b]:
            if any(u in t.left and owner[u] != r for u in (a, b)):
                continue
            e = editor.setdefault((t.nm, min(a, b), max(a, b)), r)
            if e != r:
                continue
            cx.stats["obs_cross_ops"] += 1
        elif rng.random() < 0.5:
            a, b = b, a
        key = t.key(a, b)
        there = key in t.view[r]
        w = rng.random()
        at = new_attrs()
        if w < (0.3 if there else 0.75):
            cx.op("edge+", t.nm, r, a, b, at)
            put(t, r, key, at)
            t.left -= {a, b}
            if me == r:
                t.o.add_edge(obj(a), obj(b), **at)
            last = f"add_edge {a} {b} {at}"
        elif w < 0.6 and there:
            at = at or {"w": 1}
            cx.op("edge~", t.nm, r, a, b, at)
            put(t, r, key, at)
            if me == r:
                t.o.update_edge(obj(a), obj(b), **at)
            last = f"update_edge {a} {b} {at}"
        elif there:
            cx.op("edge-", t.nm, r, a, b)
            put(t, r, key, None)
            if me == r:
                t.o.remove_edge(obj(a), obj(b))
            last = f"remove_edge {a} {b}"
        else:
            cx.op("edge? ", t.nm, r, a, b)
            if me == r:
                try:
                    t.o.remove_edge(obj(a), obj(b))
                except Exception:
                    cx.stats["obs_refused"] += 1
                else:
                    cx.fail("an edge that does not exist was removed without complaint", t.nm, a, b)
            last = f"remove_edge (missing) {a} {b}"
        if me == r:
            look(t, last)
    sync()
    cx.nontrivial = any(t.all for t in nets)
