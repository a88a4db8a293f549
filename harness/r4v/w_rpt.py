"""Random local points: inside the rank's own region, everywhere in it, from the given generator alone."""
import numpy as np

from repast4py import random as rrandom
from repast4py import space as r4space
from repast4py.space import BorderType, ContinuousPoint, DiscretePoint, OccupancyType

from . import geo


def case(cx):
    rng, n, st = cx.rng, cx.size, cx.stats
    for _ in range(3):
        kind = rng.choice("gc")
        nd = rng.choice([1, 2, 3]) if kind == "g" else rng.choice([1, 2, 2, 3])
        dims = geo.dims_create(n, nd)
        exts = [dims[d] * rng.choice([1, 1, 2, 3, rng.randint(1, 6)]) + rng.randint(0, dims[d]) for d in range(nd)]
        if rng.random() < 0.4:
            d = rng.randrange(nd)
            exts[d] = dims[d] * rng.choice([10, 16, 20, 50, 64, 100, 150, rng.randint(7, 130)]) + rng.randint(0, dims[d])
            st["obs_long"] += 1
        if kind == "c":
            exts = [max(e, dims[d]) for d, e in enumerate(exts)]
        mins = [rng.choice([0, 0, rng.randint(-30, 30), rng.randint(-10 ** 6, 10 ** 6)]) if (d == 0 or nd > 1) else 0 for d in range(nd)]
        gb = geo.Bounds(mins + [0] * (3 - nd), exts + [0] * (3 - nd))
        bt = rng.choice([BorderType.Sticky, BorderType.Periodic])
        cx.op(kind, nd, gb, bt)
        if kind == "g":
            s = r4space.SharedGrid("s", gb.box(), bt, OccupancyType.Multiple, rng.choice([0, 1]), cx.comm)
        else:
            s = r4space.SharedCSpace("s", gb.box(), bt, OccupancyType.Multiple, rng.choice([0, 1]), cx.comm, 10)
        me = geo.from_box(s.get_local_bounds())
        seed = cx.case_seed % 2 ** 31 + cx.rank
        g, h = np.random.default_rng(seed), np.random.default_rng(seed)
        before = (repr(rrandom.default_rng.bit_generator.state), repr(np.random.get_state()))
        cells = 1
        for d in range(nd):
            cells *= me.exts[d]
        K = min(cells * 40, 3000) if kind == "g" else 800
        if kind == "g":
            K = max(K, 40 * max(me.exts[:nd]))          # enough to see every coordinate of every dimension
        pts = []
        for _ in range(K):
            p = s.get_random_local_pt(g)
            cx.check(type(p) is (DiscretePoint if kind == "g" else ContinuousPoint), "a random point has the wrong type", type(p))
            c = tuple(p.coordinates.tolist())
            cx.check((p.x, p.y, p.z) == c, "a point's coordinates disagree", c, (p.x, p.y, p.z))
            cx.check(me.contains(c), "a random local point lies outside of the rank's region", c, me, gb)
            cx.check(all(c[d] == 0 for d in range(nd, 3)), "a random local point has a coordinate in an unused dimension", c, gb)
            pts.append(c)
            st["obs_points"] += 1
        again = [tuple(s.get_random_local_pt(h).coordinates.tolist()) for _ in range(min(50, K))]
        cx.check(again == pts[:50], "the same generator state gives other points", again[:3], pts[:3])
        cx.check(before == (repr(rrandom.default_rng.bit_generator.state), repr(np.random.get_state())), "another random stream than the given one was used")
        if kind == "g" and cells * 40 <= 3000:
            cx.check(len(set(pts)) == cells, "some cells of the region are never drawn", sorted(set(me.cells()) - set(pts))[:5], me)
            st["obs_exhausted"] += 1
            st["obs_cells"] += cells
        else:
            for d in range(nd):
                if kind == "c":
                    q = {int((c[d] - me.mins[d]) * 20 / me.exts[d]) for c in pts}
                    cx.check(q == set(range(20)), "parts of the region are never drawn", "dimension", d, sorted(q), me)
                else:
                    q = {c[d] - me.mins[d] for c in pts}
                    cx.check(q == set(range(me.exts[d])), "some coordinates of the region are never drawn", "dimension", d, sorted(set(range(me.exts[d])) - q)[:5], me)
                    st["obs_coordinates"] += me.exts[d]
            if kind == "c":
                cx.check(len(set(pts)) > 200, "continuous random points repeat", len(set(pts)))
                st["obs_parts"] += 1
        # coordinates are drawn independently of each other
        for a in range(nd):
            for b in range(a):
                if len(pts) >= 320 and me.exts[a] > 1 and me.exts[b] > 1:
                    q = {(c[a] >= me.mins[a] + me.exts[a] / 2, c[b] >= me.mins[b] + me.exts[b] / 2) for c in pts}
                    cx.check(len(q) == 4, "the coordinates of random points depend on each other", a, b, sorted(q), me)
        if n > 1:
            cx.nontrivial = True
        del s
