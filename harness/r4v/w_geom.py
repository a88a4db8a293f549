"""Neighbourhood functions against a naive enumeration; the Python twin (py_func) and the compiled function alike."""
import itertools

import numpy as np
from repast4py import geometry as G
from repast4py.space import BoundingBox, ContinuousPoint, DiscretePoint

FN = {(1, 0): G.find_1d_nghs_sticky, (2, 0): G.find_2d_nghs_sticky, (3, 0): G.find_3d_nghs_sticky,
      (1, 1): G.find_1d_nghs_periodic, (2, 1): G.find_2d_nghs_periodic, (3, 1): G.find_3d_nghs_periodic}


def prepare(profile):
    p = DiscretePoint(1, 1, 1)
    for (nd, per), f in FN.items():      # compiles for every argument type used, before the clock starts
        for dt in (np.int64, np.int32):
            mm = np.array([0, 3] * nd, dtype=dt)
            f(p.coordinates, mm)
            if nd > 1:
                f(p.coordinates, mm, True)


def expected(pt, mins, maxs, periodic):
    nd = len(mins)
    out = []
    for off in itertools.product((-1, 0, 1), repeat=nd):       # last coordinate varies fastest
        off = off[::-1]                                        # ... which is x
        q = [pt[d] + off[d] for d in range(nd)]
        if periodic:
            q = [mins[d] + (q[d] - mins[d]) % (maxs[d] - mins[d] + 1) for d in range(nd)]
        elif not all(mins[d] <= q[d] <= maxs[d] for d in range(nd)):
            continue
        out.append(tuple(q))
    return out


def rows(res, nd, pytorch):
    if nd == 1:
        return [(int(v),) for v in res]
    a = [[int(v) for v in r] for r in res]
    if pytorch:
        a = a[::-1]
    return list(zip(*a))


def case(cx):
    rng, st = cx.rng, cx.stats
    for _ in range(40):
        nd = rng.choice([1, 2, 2, 3, 3])
        periodic = rng.random() < 0.5
        big = rng.random() < 0.2
        mins = [rng.choice([0, 0, rng.randint(-12, 12), rng.randint(-10 ** 6, 10 ** 6)]) for _ in range(nd)]
        exts = [rng.choice([1, 2, 2, 3, 4, rng.randint(3, 12), rng.randint(3, 10 ** 5)] if big else [1, 2, 3, 3, 4, 5, 8]) for _ in range(nd)]
        dt = rng.choice([np.int64, np.int64, np.int32])
        if dt is np.int64 and rng.random() < 0.25:
            # coordinates are 64-bit integers, and worlds may be anywhere and of any size
            mins = [rng.choice([m, 2 ** 31 - rng.randint(0, 4), -2 ** 31 - rng.randint(-3, 4), 2 ** 32 - 2, 10 ** 15, -2 ** 53 - 3]) for m in mins]
            if big:
                exts = [rng.choice([e, 2 ** 31 + 1, 2 ** 32, 10 ** 12]) for e in exts]
            st["obs_far_worlds"] += 1
        maxs = [m + e - 1 for m, e in zip(mins, exts)]
        if big or nd == 3 and exts[0] * exts[1] * exts[2] > 60:
            pts = [tuple(rng.choice([mins[d], maxs[d], rng.randint(mins[d], maxs[d])]) for d in range(nd)) for _ in range(8)]
        else:
            pts = list(itertools.product(*[range(mins[d], maxs[d] + 1) for d in range(nd)]))
        mm = np.array([v for d in range(nd) for v in (mins[d], maxs[d])], dtype=dt)
        mm0 = mm.copy()
        pyt = nd > 1 and rng.random() < 0.4
        cx.op("nghs", nd, "periodic" if periodic else "sticky", mins, exts, "pytorch" if pyt else "", len(pts))
        st["obs_bounds"] += 1
        for p in pts:
            full = list(p) + [0] * (3 - nd)
            if nd < 3 and rng.random() < 0.15:
                full[2] = rng.randint(-3, 3)             # unused coordinates do not matter
            P = DiscretePoint(*full)
            f = FN[nd, periodic]
            if nd == 1:
                res = f(P.coordinates, mm)
            elif pyt:
                res = f(P.coordinates, mm, True) if rng.random() < 0.5 else f(P.coordinates, mm, pytorch_order=True)
            else:
                res = f(P.coordinates, mm) if rng.random() < 0.7 else f(P.coordinates, mm, False)
            want = expected(p, mins, maxs, periodic)
            got = rows(res, nd, pyt)
            cx.check(got == want, "a neighbourhood function returns something else than the neighbourhood, in the documented order",
                     f.__name__, "point", p, "min", mins, "max", maxs, "pytorch", pyt, "got", got, "want", want)
            cx.check([int(v) for v in P.coordinates] == full and (mm == mm0).all(), "a neighbourhood function changes its arguments", p)
            st["obs_points"] += 1
            on = any(p[d] in (mins[d], maxs[d]) for d in range(nd))
            if on:
                st["obs_wrapped_points" if periodic else "obs_clipped_points"] += 1
            if len(set(got)) < len(got):
                st["obs_thin_duplicates"] += 1
                cx.check(periodic and min(exts) < 3, "a neighbour is returned twice although the world is large enough", p, mins, exts)
        z = exts + [0] * (3 - nd)
        bb = BoundingBox(mins[0], z[0], mins[1] if nd > 1 else 0, z[1], mins[2] if nd > 2 else 0, z[2])
        cx.check(G.get_num_dims(bb) == nd, "get_num_dims is wrong", bb, G.get_num_dims(bb))
    cx.nontrivial = True
