"""Decompositions of random worlds: every rank's description of its own region, neighbours and strips is gathered and compared."""
import itertools

from repast4py.space import BorderType, CartesianTopology, OccupancyType, SharedCSpace, SharedGrid

from . import geo


def samples(lo, ext, cuts):
    s = {lo, lo + ext - 1, lo + ext // 2}
    for c in cuts:
        for v in (c - 1, c):
            if lo <= v < lo + ext:
                s.add(v)
    return sorted(s)


def case(cx):
    rng, st, comm, n = cx.rng, cx.stats, cx.comm, cx.size
    from mpi4py import MPI
    for _ in range(4):
        nd = rng.choice([1, 2, 2, 3, 3])
        dims = geo.dims_create(n, nd)
        periodic = rng.random() < 0.5
        kind = rng.choice(["topo", "topo", "grid", "cspace"])
        if kind == "cspace" and nd == 1:
            kind = "grid"
        sz = rng.choice(["tight", "small", "small", "large"])
        exts = []
        for d in range(nd):
            p = dims[d]
            exts.append({"tight": rng.choice([p, p + 1, 2 * p - 1, 2 * p]), "small": rng.randint(max(p, 2), 5 * p + 7), "large": rng.randint(10 * p, 10 ** 6)}[sz])
        mins = [rng.choice([0, 0, rng.randint(-30, 30), rng.randint(-10 ** 6, 10 ** 6)]) for _ in range(nd)]
        gb = geo.Bounds(mins + [0] * (3 - nd), exts + [0] * (3 - nd))
        minloc = min(exts[d] // dims[d] for d in range(nd))
        b = rng.choice([0, 1, 2, minloc, rng.randint(0, minloc)])
        b = min(b, minloc)
        cx.op(kind, nd, "periodic" if periodic else "sticky", gb, "buffer", b)
        bt = BorderType.Periodic if periodic else BorderType.Sticky
        topo = sp = None
        if kind == "topo":
            topo = CartesianTopology(comm, gb.box(), periodic)
            lb = topo.local_bounds
            coords, ppd, tc = tuple(topo.coordinates), tuple(topo.procs_per_dim), topo.comm
            cx.check(len(ppd) == nd and len(coords) == nd, "the topology has another number of dimensions", ppd, coords, nd)
            k = 1
            for v in ppd:
                k *= v
            cx.check(k == n, "the process grid has another number of ranks", ppd, n)
            cx.check(all(0 <= coords[d] < ppd[d] for d in range(nd)), "coordinates outside the process grid", coords, ppd)
            cx.check(tc.size == n, "the topology's communicator has another size", tc.size, n)
            trank = tc.rank
        else:
            cls = SharedGrid if kind == "grid" else SharedCSpace
            kw = {} if kind == "grid" else {"tree_threshold": 20}
            sp = cls("s", bounds=gb.box(), borders=bt, occupancy=OccupancyType.Multiple, buffer_size=b, comm=comm, **kw)
            lb = sp.get_local_bounds()
            coords = ppd = None
            trank = comm.rank
        me = geo.from_box(lb)
        cx.check(all(me.exts[d] >= 1 for d in range(nd)), "a rank's region is empty", lb)
        cx.check(all(me.exts[d] == 0 and me.mins[d] == 0 for d in range(nd, 3)), "a rank's region has more dimensions than the world", lb)
        allr = cx.ctl.allgather((trank, me.mins, me.exts, coords, ppd))
        regs = {t: geo.Bounds(m, e) for t, m, e, _, _ in allr}
        cx.check(sorted(regs) == list(range(n)), "the topology's ranks are not a permutation", sorted(regs))
        # disjoint, exact cover, balanced: the regions form a product of partitions
        axes = []
        for d in range(nd):
            iv = sorted({(r.mins[d], r.exts[d]) for r in regs.values()})
            pos = gb.mins[d]
            for lo, ext in iv:
                cx.check(lo == pos, "the ranks' regions leave a gap or overlap", "dimension", d, iv, gb)
                pos += ext
            cx.check(pos == gb.mins[d] + gb.exts[d], "the ranks' regions do not cover the world", "dimension", d, iv, gb)
            ex = [e for _, e in iv]
            cx.check(max(ex) - min(ex) <= 1, "the ranks' regions differ by more than one cell", "dimension", d, iv, gb)
            axes.append(iv)
        cells = {tuple((r.mins[d], r.exts[d]) for d in range(nd)) for r in regs.values()}
        k = 1
        for a in axes:
            k *= len(a)
        cx.check(len(cells) == n and k == n, "the ranks' regions are not a tiling", sorted(cells), gb)
        st["obs_regions"] += 1
        if any(gb.exts[d] % dims[d] for d in range(nd)):
            st["obs_uneven"] += 1
        if kind == "topo":
            cx.check(len({p for _, _, _, _, p in allr}) == 1, "ranks disagree about the process grid", [p for _, _, _, _, p in allr])
            cx.check(len({c for _, _, _, c, _ in allr}) == n, "two ranks have the same coordinates", [c for _, _, _, c, _ in allr])
            for d in range(nd):
                cx.check(len(axes[d]) == ppd[d] and axes[d][coords[d]] == (me.mins[d], me.exts[d]),
                         "a rank's coordinates do not match its region", "dimension", d, coords, axes[d], lb)
            strips = [(r, tuple(s)) for r, s in topo.compute_buffer_nghs(b)]
            for r, s in strips:
                cx.check(r in regs and r != trank, "a rank is its own buffer neighbour, or the neighbour does not exist", r, strips)
                for d in range(nd):
                    lo, hi = s[2 * d], s[2 * d + 1]
                    cx.check(me.mins[d] <= lo <= hi <= me.mins[d] + me.exts[d], "a strip to send reaches outside the rank's own region", s, lb)
            for r, reg in regs.items():
                if r == trank:
                    continue
                mine = [s for q, s in strips if q == r]
                grid = [samples(me.mins[d], me.exts[d], [v for s in mine for v in s[2 * d:2 * d + 2]] + [me.mins[d] + b, me.mins[d] + me.exts[d] - b]) for d in range(nd)]
                for c in itertools.product(*grid):
                    want = b > 0 and geo.in_reach(c, reg, b, gb, periodic)
                    got = any(all(s[2 * d] <= c[d] < s[2 * d + 1] for d in range(nd)) for s in mine)
                    if want != got:
                        cx.fail("the strips sent to a neighbour are not the cells within the buffer distance of its region", "to rank", r, "cell", c,
                                "should be sent" if want else "should not be sent", "strips", mine, "own", lb, "theirs", reg, "buffer", b)
                    st["obs_strip_cells"] += 1
                    if want:
                        st["obs_sent_cells"] += 1
            # what I think I share with a neighbour is what it thinks it shares with me
            both = cx.ctl.allgather((trank, sorted({r for r, _ in strips})))
            by = dict(both)
            for r in by[trank]:
                cx.check(trank in by[r], "the neighbour relation is not symmetric", trank, r, by)
        else:
            cx.check(tuple(cx.ctl.allgather(sp.name)) == ("s",) * n, "name")
        if n > 1:
            cx.nontrivial = True
        del topo, sp
    MPI
