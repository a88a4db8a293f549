"""Contexts and their projections: who is in which projection, at every moment."""
from repast4py import context as r4ctx
from repast4py import space as r4space
from repast4py.network import DirectedSharedNetwork, UndirectedSharedNetwork
from repast4py.space import BorderType, BoundingBox, ContinuousPoint, DiscretePoint, OccupancyType

from .w_dist import Ag, Restorer


def case(cx):
    rng, n, me = cx.rng, cx.size, cx.rank
    st = cx.stats
    ctx = r4ctx.SharedContext(cx.comm)
    projs = []            # (name, kind, obj)
    owner, mine, nid = {}, [[] for _ in range(n)], [0] * n
    req = [set() for _ in range(n)]
    gone = []             # objects of agents that left this rank
    goneids = set()
    restore = Restorer(rng.random() < 0.3)
    ext = rng.randint(2 * n, 4 * n + 5)
    cx.config(n=n, ext=ext)
    pool = rng.sample(["grid", "net", "space", "a", "b", "A", "", "grid ", "ne"], 7)

    def make(kind, nm):
        bt = rng.choice([BorderType.Sticky, BorderType.Periodic])
        bb = BoundingBox(0, ext, 0, ext)
        if kind == "g":
            return r4space.SharedGrid(nm, bb, bt, OccupancyType.Multiple, 0, cx.comm)
        if kind == "c":
            return r4space.SharedCSpace(nm, bb, bt, OccupancyType.Multiple, 0, cx.comm, 10)
        return (DirectedSharedNetwork if kind == "d" else UndirectedSharedNetwork)(nm, cx.comm)

    def look(last):
        for nm, k, o in projs:
            cx.check(ctx.get_projection(nm) is o, "a projection is not found by its name", nm, "after", last)
            cx.check(o.name == nm, "a projection has another name", nm, o.name)
            for u in mine[me]:
                a = ctx.agent(u)
                if a is None:
                    cx.fail("a local agent cannot be found by its identity", u, "after", last)
                cx.check(a in o, "an agent of the context is not in a projection", u, nm, "after", last)
                st["obs_memberships"] += 1
            for u in req[me]:
                g = ctx.ghost_agent(u)
                if g is None:
                    cx.fail("a requested agent is not available", u, "after", last)
                cx.check(g in o, "a requested agent is not in a projection", u, nm, "after", last)
                st["obs_requested"] += 1
            for a in gone[-15:]:
                if a.uid in goneids:
                    cx.check(a not in o, "an agent that left is still in a projection", a.uid, nm, "after", last)
                    if k in "gc":
                        cx.check(o.get_location(a) is None, "an agent that left still has a location", a.uid, nm)
                    st["obs_left"] += 1
            if k in "ud":
                ids = sorted(x.uid for x in o)
                exp = sorted(set(mine[me]) | req[me])
                cx.check(ids == exp, "the nodes of a network are not the agents of the context", nm, "missing", [u for u in exp if u not in ids], "unexpected",
                         [u for u in ids if u not in exp], "after", last)
        for nm in pool:
            if nm not in [x for x, _, _ in projs]:
                try:
                    ctx.get_projection(nm)
                except KeyError:
                    st["obs_unknown"] += 1
                else:
                    cx.fail("a projection that was never added is found", nm)

    def left(a):
        gone.append(a)
        goneids.add(a.uid)

    for _ in range(rng.choice([10, 25, 50])):
        k = rng.random()
        r = rng.randrange(n)
        if k < 0.17 or not projs:
            kind = rng.choice("gcdu")
            nm = rng.choice(pool)
            dup = nm in [x for x, _, _ in projs]
            cx.op("projection", repr(nm), kind, "taken" if dup else "")
            o = make(kind, nm)
            last = f"add_projection {nm!r}"
            if dup:
                try:
                    ctx.add_projection(o)
                except ValueError:
                    st["obs_duplicates"] += 1
                else:
                    cx.fail("a second projection with the same name was accepted", nm)
                for u in mine[me]:
                    cx.check(ctx.agent(u) not in o, "a projection that was refused holds agents", nm, u)
            elif len(projs) < 6:
                ctx.add_projection(o)
                projs.append((nm, kind, o))
                if mine[me]:
                    st["obs_late"] += 1
        elif k < 0.5:
            u = (nid[r], rng.choice([0, 1, 7]), r)
            nid[r] += 1
            owner[u] = r
            mine[r].append(u)
            cx.op("add", u)
            last = f"add {u}"
            if me == r:
                a = Ag(*u, 0)
                ctx.add(a)
                if restore.cached:
                    restore.cache[u] = a
        elif k < 0.6 and mine[r]:
            u = rng.choice(mine[r])
            cx.op("remove", u)
            last = f"remove {u}"
            if me == r:
                a = ctx.agent(u)
                ctx.remove(a)
                left(a)
                restore.cache.pop(u, None)
            mine[r].remove(u)
            del owner[u]
            if any(u in q for q in req):
                # copies disappear with the next synchronisation
                for q in range(n):
                    if u in req[q]:
                        if me == q:
                            left(ctx.ghost_agent(u))
                        req[q].discard(u)
                cx.op("sync")
                ctx.synchronize(restore)
        elif k < 0.72 and mine[r]:
            # a place inside of the own region
            u = rng.choice(mine[r])
            sp = [x for x in projs if x[1] in "gc"]
            if sp:
                nm, kind, o = rng.choice(sp)
                fx, fy = rng.random(), rng.random()
                cx.op("place", u, repr(nm), fx, fy)
                if me == r:
                    lb = o.get_local_bounds()
                    x, y = lb.xmin + int(fx * lb.xextent), lb.ymin + int(fy * lb.yextent)
                    o.move(ctx.agent(u), DiscretePoint(x, y) if kind == "g" else ContinuousPoint(float(x), float(y)))
            last = f"place {u}"
        elif k < 0.8 and n > 1:
            reqs = [[u for u in owner if owner[u] != q and u not in req[q] and rng.random() < 0.3] for q in range(n)]
            cx.op("request", reqs)
            ctx.request_agents([(u, owner[u]) for u in reqs[me]], restore)
            for q in range(n):
                req[q] |= set(reqs[q])
            goneids.difference_update(reqs[me])
            last = "request"
        elif k < 0.9 and n > 1:
            moves = [[(u, rng.choice([x for x in range(n) if x != q])) for u in mine[q] if rng.random() < 0.3] for q in range(n)]
            cx.op("move_agents", moves)
            objs = {u: ctx.agent(u) for u, _ in moves[me]}
            copies = {u: ctx.ghost_agent(u) for x in moves for u, d in x if d == me}
            ctx.move_agents(moves[me], restore)
            for u, a in objs.items():
                if not restore.cached:
                    left(a)
            for q in range(n):
                for u, d in moves[q]:
                    mine[q].remove(u)
                    mine[d].append(u)
                    owner[u] = d
                    if u in req[d]:
                        req[d].discard(u)
                        if d == me and copies[u] is not None and copies[u] is not ctx.agent(u):
                            gone.append(copies[u])
                    if d == me:
                        goneids.discard(u)
                        st["obs_arrived"] += 1
            last = "move_agents"
        else:
            cx.op("sync")
            ctx.synchronize(restore)
            last = "sync"
        look(last)
    cx.nontrivial = len(projs) > 1 and bool(owner)
