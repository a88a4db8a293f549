"""Points as values: what they were made from or set to, equality, independence of each other and of spaces."""
import gc
import math

import numpy as np

from repast4py import core, space as r4space
from repast4py.geometry import BoundingBox
from repast4py.space import BorderType, ContinuousPoint, DiscretePoint, OccupancyType

INTS = [0, 1, -1, 2, 7, -7, 255, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1, -2 ** 63]
FLTS = [0.0, -0.0, 1.0, -1.0, 0.1, 0.1 + 2 ** -56, 0.30000000000000004, 0.3, 1e-300, -5e-324, 1e300, 2.0 ** 53, 2.0 ** 53 + 2, 1 / 3, -1 / 3, 1e15 + 0.3, math.inf, -math.inf]


def same(a, b):
    return len(a) == len(b) and all((x == y or (x != x and y != y)) and math.copysign(1, x) == math.copysign(1, y) for x, y in zip(a, b))


def equal(a, b):
    return all(x == y for x, y in zip(a, b))


class Pts:
    """Points and, for each, the coordinates it must have."""

    def __init__(self, cx):
        self.cx, self.rng = cx, cx.rng
        self.pts = []            # [point, 'd'/'c', expected coordinates]

    def num(self, k):
        rng = self.rng
        if k == "d":
            v = rng.choice(INTS) if rng.random() < 0.4 else rng.randint(-4, 4)
            if rng.random() < 0.2:
                v = rng.choice([np.int64(v), bool(v) if v in (0, 1) else v, np.int32(v) if abs(v) < 2 ** 31 - 1 else v])
            return v
        v = rng.choice(FLTS) if rng.random() < 0.5 else rng.choice([rng.randint(-3, 3) * 0.5, rng.uniform(-2, 2), rng.randint(-5, 5)])
        if rng.random() < 0.2:
            v = rng.choice([np.float64(v), np.float32(v) if abs(v) < 1e30 or math.isinf(v) else v, v])
        return v

    def make(self):
        rng, cx = self.rng, self.cx
        k = rng.choice("dc")
        T = DiscretePoint if k == "d" else ContinuousPoint
        if self.pts and rng.random() < 0.35:       # equal, or nearly, to another one
            e = list(rng.choice([p for p in self.pts if p[1] == k] or [[None, k, (1, 2, 3)]])[2])
            if rng.random() < 0.5:
                d = rng.randrange(3)
                if k == "d":
                    e[d] += rng.choice([1, -1, 2 ** 32]) if abs(e[d]) < 2 ** 61 else 0
                elif math.isfinite(e[d]):
                    e[d] = rng.choice([math.nextafter(e[d], math.inf), math.nextafter(e[d], -math.inf), -e[d], e[d] + 1.0])
            a = e
        else:
            a = [self.num(k) for _ in range(3)]
        how = rng.choice(["2", "3", "kw", "kw2", "mixed"])
        if how in ("2", "kw2"):
            a = a[:2]
        if how in ("2", "3"):
            p = T(*a)
        elif how == "mixed":
            p = T(a[0], z=a[2], y=a[1])
        else:
            p = T(**dict(zip("xyz", a)))
        conv = int if k == "d" else float
        e = tuple(conv(x) for x in a) + ((conv(0),) if len(a) == 2 else ())
        cx.op("make", k, how, e)
        self.pts.append([p, k, e])

    def reset(self):
        rng, cx = self.rng, self.cx
        i = rng.randrange(len(self.pts))
        p, k, e = self.pts[i]
        conv = int if k == "d" else float
        how = rng.choice(["1", "2", "3", "t", "a", "a", "a"])
        e = list(e)
        if how in "123":
            a = [self.num(k) for _ in range(int(how))]
            {"1": p._reset1D, "2": p._reset2D, "3": p._reset3D}[how](*a)
        elif how == "t":
            a = [self.num(k) for _ in range(3)]
            p._reset(tuple(a))
        else:
            n = rng.choice([1, 2, 3, 3, 4, 9])
            a = [conv(self.num(k)) for _ in range(n)]
            if k == "d":
                dt = rng.choice([np.int64, np.longlong, np.int32])
                if dt is np.int32:
                    a = [x if abs(x) < 2 ** 31 else 5 for x in a]
            else:
                dt = rng.choice([np.float64, np.float32])
                if dt is np.float32:
                    a = [float(np.float32(x)) if abs(x) < 1e38 or math.isinf(x) else 0.5 for x in a]
            arr = np.array(a, dtype=dt)
            lay = rng.choice(["plain", "stride", "back", "column"])
            if lay == "stride":
                w = np.zeros(n * 3, dtype=dt)
                w[::3] = arr
                arr = w[::3]
            elif lay == "back":
                arr = np.array(a[::-1], dtype=dt)[::-1]
            elif lay == "column":
                w = np.zeros((n, 4), dtype=dt)
                w[:, 2] = arr
                arr = w[:, 2]
            how += f" {dt.__name__} {lay} {n}"
            p._reset_from_array(arr)
            arr[:] = 3
        for d, x in enumerate(a[:3]):
            e[d] = conv(x)
        cx.op("reset", i, how, tuple(e))
        self.pts[i][2] = tuple(e)
        cx.stats["obs_resets"] += 1

    def refuse(self):
        """Arguments a point cannot have are refused by an exception."""
        rng, cx = self.rng, self.cx
        T = rng.choice([DiscretePoint, ContinuousPoint])
        bad = rng.choice([("a", 1), (), (1,), (1, 2, 3, 4), (None, 1, 2), (1, [2], 3)] + ([(1.5, 2), (2 ** 63, 0), (0, 0, -2 ** 63 - 1)] if T is DiscretePoint else []))
        cx.op("refuse", T.__name__, bad)
        try:
            p = T(*bad)
        except (TypeError, ValueError, OverflowError):
            cx.stats["obs_refused"] += 1
            return
        cx.fail("a point was made from arguments that are not coordinates", T.__name__, bad, p)

    def place(self, space, agents, k):
        """Moves an agent by a point of ours: the point is not changed and not kept."""
        rng, cx = self.rng, self.cx
        mine = [i for i, x in enumerate(self.pts) if x[1] == k and all(abs(c) < 2 ** 31 for c in x[2])]
        if not mine:
            return
        i = rng.choice(mine)
        a = rng.randrange(len(agents))
        got = space.move(agents[a], self.pts[i][0])
        cx.op("move", a, i, None if got is None else tuple(got.coordinates.tolist()))
        cx.check(got is not self.pts[i][0], "a space keeps the caller's point as an agent's location", i)
        loc = space.get_location(agents[a])
        before = tuple(loc.coordinates.tolist())
        # reusing the point leaves the agent where it is
        x = [self.num(k) for _ in range(3)]
        self.pts[i][0]._reset3D(*x)
        self.pts[i][2] = tuple((int if k == "d" else float)(v) for v in x)
        now = tuple(space.get_location(agents[a]).coordinates.tolist())
        cx.check(same(before, now), "an agent's location follows the point used to move it there", before, now)
        cx.stats["obs_moves_by_point"] += 1

    def check(self):
        cx, rng = self.cx, self.rng
        for i, (p, k, e) in enumerate(self.pts):
            got = (p.x, p.y, p.z)
            cx.check(same(got, e), "a point's coordinates are not those it was given", i, "has", got, "expected", e)
            cx.check(all(type(v) is (int if k == "d" else float) for v in got), "a point's coordinates have the wrong type", k, got)
            c = p.coordinates
            cx.check(isinstance(c, np.ndarray) and c.shape == (3,) and c.dtype.kind == ("i" if k == "d" else "f") and c.dtype.itemsize == 8 and same(tuple(c.tolist()), e),
                     "a point's coordinate array is not its coordinates", i, c, e)
        for _ in range(6):
            if len(self.pts) < 2:
                break
            i, j = rng.randrange(len(self.pts)), rng.randrange(len(self.pts))
            (p, k, e), (q, l, f) = self.pts[i], self.pts[j]
            w = k == l and equal(e, f)
            cx.check((p == q) is w and (q == p) is w, "equality of points is not equality of their coordinates", e, f, k, l, p == q, q == p)
            cx.check((p != q) is (not w) and (q != p) is (not w), "inequality of points is not the negation of their equality", e, f, k, l, p != q, q != p)
            cx.check(([p] == [q]) is (i == j or w) and (p in [q]) is (i == j or w), "looking for a point in a list disagrees with equality", e, f)
            cx.stats["obs_equal" if w and i != j else "obs_unequal"] += 1
        p, k, e = rng.choice(self.pts)
        for other in (e, list(e), None, "x", 0, e[0], object()):
            cx.check((p == other) is False and (p != other) is True, "a point equals something that is not a point", e, other)


class A(core.Agent):
    pass


def case(cx):
    rng = cx.rng
    P = Pts(cx)
    b = BoundingBox(-8, 17, -8, 17, -8, 17)
    bt = rng.choice([BorderType.Sticky, BorderType.Periodic])
    sp = {"d": r4space.Grid("g", b, bt, OccupancyType.Multiple), "c": r4space.ContinuousSpace("c", b, bt, OccupancyType.Multiple, 3)}
    agents = [A(i, 0, 0) for i in range(3)]
    for s in sp.values():
        for a in agents:
            s.add(a)
    cx.op("space", bt)
    for _ in range(rng.randint(10, 60)):
        x = rng.random()
        if x < 0.4 or not P.pts:
            P.make()
        elif x < 0.65:
            P.reset()
        elif x < 0.72:
            P.refuse()
        elif x < 0.85:
            k = rng.choice("dc")
            P.place(sp[k], agents, k)
        elif x < 0.9 and len(P.pts) > 4:
            i = rng.randrange(len(P.pts))
            c = P.pts[i][0].coordinates
            e = P.pts[i][2]
            cx.op("drop", i)
            del P.pts[i]
            if rng.random() < 0.3:
                gc.collect()
            junk = [DiscretePoint(9, 9, 9) for _ in range(5)] + [ContinuousPoint(9, 9, 9) for _ in range(5)]
            cx.check(same(tuple(c.tolist()), e), "a coordinate array changes when its point is gone", c, e)
            del junk
        P.check()
        cx.stats["obs_points"] += len(P.pts)
    cx.nontrivial = True
