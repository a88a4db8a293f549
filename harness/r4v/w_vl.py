"""Value layers: local (mode single), shared (shared) and read/write (rw), against dictionaries keyed by cell."""
import itertools

import numpy as np
import torch
from repast4py import context as ctxm, core, geometry
from repast4py.space import BorderType, DiscretePoint
from repast4py.value_layer import ReadWriteValueLayer, SharedValueLayer, ValueLayer

from . import geo

DTYPES = [torch.float64, torch.float64, torch.float32, torch.int64, torch.int32]


def prepare(profile):
    p = DiscretePoint(1, 1, 1)
    for nd, fs in ((1, (geometry.find_1d_nghs_sticky, geometry.find_1d_nghs_periodic)), (2, (geometry.find_2d_nghs_sticky, geometry.find_2d_nghs_periodic)),
                   (3, (geometry.find_3d_nghs_sticky, geometry.find_3d_nghs_periodic))):
        for f in fs:
            mm = np.array([0, 3] * nd)
            f(p.coordinates, mm)
            if nd > 1:
                f(p.coordinates, mm, pytorch_order=True)


def rnd(dtype, v):
    return torch.tensor(v, dtype=dtype).item()


def value(rng, dtype):
    v = rng.choice([0, 1, -1, rng.randint(-1000, 1000), rng.uniform(-5, 5) if dtype.is_floating_point else rng.randint(-10 ** 6, 10 ** 6)])
    if dtype.is_floating_point and rng.random() < 0.1:
        v = rng.choice([1e30, 1e-30, -1e20])
    elif dtype == torch.int64 and rng.random() < 0.1:
        v = rng.choice([1, -1]) * rng.randint(2 ** 53, 2 ** 62)     # no double holds it
    return v


def dress(rng, v, dtype):
    """The forms in which a model may hand over the same value."""
    k = rng.random()
    if k < 0.7:
        return v
    if k < 0.85:
        return torch.tensor(v, dtype=dtype)
    return np.float64(v) if isinstance(v, float) else np.int64(v)


class Points:
    """Points as models make them: a new one for every call, or one that is reset again and again."""

    def __init__(self, rng):
        self.rng = rng
        self.one = DiscretePoint(0, 0, 0)

    def __call__(self, p):
        p = [int(c) for c in p]
        if self.rng.random() < 0.5:
            return DiscretePoint(*p)
        k = self.rng.random()
        if k < 0.4:
            self.one._reset_from_array(np.array(p, dtype=np.int64))
        elif k < 0.7:
            self.one._reset(tuple(p))
        else:
            self.one.coordinates[:] = p
        return self.one


def make_world(cx, nd, dims, tight=True):
    rng = cx.rng
    exts, mins = [], []
    far = rng.random() < 0.25
    for d in range(nd):
        p = dims[d] if dims else 1
        exts.append(rng.choice([max(p, 1), p + rng.randint(0, 3), p * rng.randint(1, 3) + rng.randint(0, p), rng.randint(p, 3 * p + 6)]))
        mins.append(rng.choice([0, 0, rng.randint(-20, 20), rng.randint(-2000, 2000)] if not far else [0, 40000, -70000, 2 ** 24 + rng.randint(1, 9), -2 ** 24 - 3, 2 ** 30 + 5, -2 ** 30 - 7] + [2 ** 31 + 5, -2 ** 33] * (dims is None)))
    return geo.Bounds(mins + [0] * (3 - nd), exts + [0] * (3 - nd))


def outside(rng, gb):
    p = [gb.mins[d] + (rng.randint(-3 * gb.exts[d] - 2, 4 * gb.exts[d] + 2) if d < gb.nd else 0) for d in range(3)]
    if rng.random() < 0.03:                       # any 64 bit integer
        p[rng.randrange(gb.nd)] = rng.choice([2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1, -2 ** 53 - 1, rng.randint(-2 ** 63, 2 ** 63 - 1)])
    return p


def nghs_expected(c, gb, periodic):
    out = []
    for off in itertools.product((-1, 0, 1), repeat=gb.nd):
        off = tuple(off[::-1]) + (0,) * (3 - gb.nd)
        q = tuple(c[d] + off[d] for d in range(3))
        if periodic:
            q = geo.border_grid(q, gb, True)
        elif not gb.contains(q):
            continue
        out.append(q)
    return out


def loc_list(nghs, nd):
    if nd == 1:
        return [(int(v), 0, 0) for v in nghs]
    a = [[int(v) for v in r] for r in nghs]
    return [tuple(t) + (0,) * (3 - nd) for t in zip(*a)]


def case_single(cx):
    rng, st = cx.rng, cx.stats
    nd = rng.choice([1, 2, 2, 3, 3])
    gb = make_world(cx, nd, None)
    if rng.random() < 0.3:
        gb = geo.Bounds(gb.mins, [e and rng.choice([1, 2, 3, 7]) for e in gb.exts])
    periodic = rng.random() < 0.5
    dtype = rng.choice(DTYPES)
    init = rng.choice([0, 5, "random" if dtype.is_floating_point else 7, -3])
    cx.config(nd=nd, gb=repr(gb), periodic=periodic, dtype=str(dtype), init=init)
    at = Points(rng)
    vl = ValueLayer(gb.box(), BorderType.Periodic if periodic else BorderType.Sticky, init, dtype)
    cells = gb.cells()
    shape = tuple(reversed(gb.exts[:nd]))
    cx.check(tuple(vl.grid.shape) == shape and vl.grid.dtype == dtype, "the grid has another shape or type", vl.grid.shape, shape, vl.grid.dtype)
    cx.check(vl.bounds == gb.box(), "bounds", vl.bounds, gb)
    model = {}
    for c in cells:
        v = vl.get(at(c)).item()
        cx.check(0 <= v < 1 if init == "random" else v == init, "a cell does not hold the initial value", c, v, init)
        model[c] = v
    if init == "random" and len(cells) > 3:
        cx.check(len(set(model.values())) > 1, "random initial values are all equal", model)

    def full():
        for c in cells:
            v = vl.get(at(c)).item()
            cx.check(v == model[c], "a cell does not hold the value last written to it", c, "has", v, "written", model[c])
            idx = tuple(c[d] - gb.mins[d] for d in reversed(range(nd)))
            cx.check(vl.grid[idx].item() == model[c], "grid and get disagree", c, idx)
        st["obs_cells"] += len(cells)

    for _ in range(rng.randint(5, 40)):
        k = rng.random()
        if k < 0.5:
            p = list(rng.choice(cells)) if rng.random() < 0.6 else outside(rng, gb)
            if nd < 3 and rng.random() < 0.1:
                p[2] = rng.randint(-2, 2)
            v = value(rng, dtype)
            cx.op("set", p, v)
            pt = at(p)
            vl.set(pt, dress(rng, v, dtype))
            cx.check([int(x) for x in pt.coordinates] == list(p), "set changes the point it is given", p)
            c = geo.border_grid(p, gb, periodic)
            if not gb.contains(p):
                st["obs_wrapped" if periodic else "obs_clamped"] += 1
            model[c] = rnd(dtype, v)
        elif k < 0.75:
            p = list(rng.choice(cells)) if rng.random() < 0.4 else outside(rng, gb)
            c = geo.border_grid(p, gb, periodic)
            cx.op("get", p)
            v = vl.get(at(p)).item()
            cx.check(v == model[c], "reading a location gives another cell's value", p, "denotes", c, "has", v, "expected", model[c])
            st["obs_reads"] += 1
        elif k < 0.92:
            c = rng.choice(cells)
            cx.op("nghs", c)
            vals, nghs = vl.get_nghs(at(c))
            locs = loc_list(nghs, nd)
            cx.check(locs == nghs_expected(c, gb, periodic), "get_nghs returns other locations", c, locs, nghs_expected(c, gb, periodic))
            vs = [float(x) for x in vals]
            cx.check(vs == [float(model[q]) for q in locs], "get_nghs pairs a location with another value", c, locs, vs, [model[q] for q in locs])
            st["obs_nghs"] += 1
        else:
            f = rng.choice(["add", "fill"])
            cx.op("grid", f)
            if f == "fill":
                vl.grid.fill_(3)
                for c in cells:
                    model[c] = rnd(dtype, 3)
            else:
                vl.grid.add_(1)
                for c in cells:
                    model[c] = (torch.tensor(model[c], dtype=dtype) + 1).item()
        if rng.random() < 0.2:
            full()
    full()
    cx.nontrivial = True


class Shadow:
    """What one shared layer must look like from every rank."""

    def __init__(self, own):
        self.own = dict(own)          # owners' values
        self.seen = dict(own)         # owners' values at the last synchronisation: what buffers show
        self.dirty = {}               # (rank, cell) -> buffer cells a rank wrote itself since then

    def sync(self):
        self.seen = dict(self.own)
        self.dirty = {}


def case_shared(cx):
    rng, st, n, me = cx.rng, cx.stats, cx.size, cx.rank
    rw = cx.profile["mode"] == "rw"
    nd = rng.choice([1, 2, 2])
    dims = geo.dims_create(n, nd)
    gb = make_world(cx, nd, dims)
    periodic = rng.random() < 0.5
    dtype = rng.choice(DTYPES)
    init = rng.choice([0, 5, "random" if dtype.is_floating_point else 7, -3])
    minloc = min(gb.exts[d] // dims[d] for d in range(nd))
    b = min(minloc, rng.choice([0, 1, 1, 2, 2, minloc, rng.randint(0, minloc)]))
    second = rng.random() < 0.3
    cx.config(nd=nd, gb=repr(gb), periodic=periodic, dtype=str(dtype), init=init, buffer=b, second=second)
    bt = BorderType.Periodic if periodic else BorderType.Sticky
    ctx = ctxm.SharedContext(cx.comm)
    cls = ReadWriteValueLayer if rw else SharedValueLayer

    def make():
        return cls(cx.comm, gb.box(), bt, b, init, dtype) if dtype != torch.float64 or rng_me.random() < 0.5 else cls(cx.comm, gb.box(), bt, b, init)
    rng_me = __import__("random").Random(cx.case_seed)
    at = Points(rng_me)
    layers = [make() for _ in range(2 if second else 1)]
    for vl in layers:
        ctx.add_value_layer(vl)
    regions = [geo.from_box(x) for x in cx.ctl.allgather(layers[0].read_layer.local_bounds if rw else layers[0].local_bounds)]
    cells = gb.cells()
    owner = {}
    for c in cells:
        o = [r for r in range(n) if regions[r].contains(c)]
        cx.check(len(o) == 1, "a cell belongs to several or no ranks", c, o)
        owner[c] = o[0]
    mine = [c for c in cells if owner[c] == me]
    reach = {r: [c for c in cells if owner[c] != r and b > 0 and geo.in_reach(c, regions[r], b, gb, periodic)] for r in range(n)}
    inner = {r: set(c for c in cells if owner[c] == r or b > 1 and geo.in_reach(c, regions[r], b - 1, gb, periodic)) for r in range(n)}

    far = {r: [c for c in cells if owner[c] != r and not geo.in_reach(c, regions[r], b, gb, periodic)] for r in range(n)}

    def parts(vl):
        return [vl.read_layer, vl.write_layer] if rw else [vl]

    # initial values
    shadows = []
    for vl in layers:
        shs = []
        for part in parts(vl):
            own = {c: part.get(at(c)).item() for c in mine}
            for c, v in own.items():
                cx.check(0 <= v < 1 if init == "random" else v == init, "a cell does not hold the initial value", c, v, init)
            allown = {}
            for d in cx.ctl.allgather(own):
                allown.update(d)
            shs.append(Shadow(allown))
        shadows.append(shs)

    def verify(full=True):
        for vl, shs in zip(layers, shadows):
            for pi, part in enumerate(parts(vl)):
                sh = shs[pi]
                if rw and pi == 0:
                    cx.check(vl.read_grid is part.grid and vl.write_grid is parts(vl)[1].grid, "read_grid and write_grid are not the grids of the layers read and written")
                    cx.check(vl.bounds == part.bounds, "the layer's bounds are not those of the layer it reads", vl.bounds, part.bounds)
                look = vl.get if rw and pi == 0 else part.get
                for c in (mine if full else rng_me.sample(mine, min(4, len(mine)))):
                    v = look(at(c)).item()
                    if v != sh.own[c]:
                        cx.fail("a rank's own cell does not hold the value last written to it", c, "has", v, "expected", sh.own[c], "layer", pi)
                st["obs_own"] += len(mine)
                st["checks"] += len(mine)
                for c in reach[me]:
                    if (me, c) in sh.dirty:
                        continue
                    v = look(at(c)).item()
                    if v != sh.seen[c]:
                        cx.fail("a buffered location does not show its owner's value as of the last synchronisation", c, "owner", owner[c], "has", v,
                                "expected", sh.seen[c], "layer", pi, "own region", regions[me])
                    st["obs_buffer"] += 1
                    st["checks"] += 1
                if part is parts(vl)[0]:
                    cand = sorted(c for c in inner[me] if all((me, q) not in sh.dirty for q in nghs_expected(c, gb, periodic)))
                    if b == 0:
                        cand = [c for c in cand if all(owner[q] == me for q in nghs_expected(c, gb, periodic))]
                    for c in rng_me.sample(cand, min(5, len(cand))):
                        vals, nghs = vl.get_nghs(at(c))
                        locs = loc_list(nghs, nd)
                        want = nghs_expected(c, gb, periodic)
                        cx.check(locs == want, "get_nghs returns other locations", c, locs, want)
                        exp = [float(sh.own[q] if owner[q] == me else sh.seen[q]) for q in locs]
                        cx.check([float(x) for x in vals] == exp, "get_nghs pairs a location with another value", c, locs, vals, exp)
                        st["obs_nghs"] += 1
                        if any(owner[q] != me for q in locs):
                            st["obs_nghs_border"] += 1

    verify()
    nsync = 0
    for step in range(rng.randint(4, 14)):
        for _ in range(rng.choice([0, 1, 1, 2, rng.randint(0, 12), rng.randint(0, 12)])):
            r = rng.randrange(n)
            li = rng.randrange(len(layers))
            v = value(rng, dtype)
            k = rng.random()
            local = [c for c in cells if owner[c] == r]
            wi = 1 if rw else 0
            if k < 0.06 and far[r]:
                # beyond the buffer there is nothing to write to: whatever happens, no cell changes
                c = rng.choice(far[r])
                cx.op("set-beyond", li, f"r{r}", c, v)
                if r == me:
                    try:
                        layers[li].set(at(c), v)
                    except IndexError:
                        pass
                st["obs_beyond"] += 1
            elif k < 0.7 or not reach[r]:
                c = rng.choice(local)
                p = list(c)
                if rng.random() < 0.2:       # through the border
                    for d in range(nd):
                        if periodic and rng.random() < 0.6:
                            p[d] += rng.choice([-1, 1, 2]) * gb.exts[d]
                        elif not periodic and c[d] == gb.mins[d] and rng.random() < 0.6:
                            p[d] -= rng.randint(1, 9)
                        elif not periodic and c[d] == gb.mins[d] + gb.exts[d] - 1:
                            p[d] += rng.randint(1, 9)
                    st["obs_through_border"] += p != list(c)
                cx.op("set", li, f"r{r}", p, v)
                if r == me:
                    layers[li].set(at(p), dress(rng_me, v, dtype))
                shadows[li][wi].own[c] = rnd(dtype, v)
            elif k < 0.85:
                c = rng.choice(reach[r])
                cx.op("set-in-buffer", li, f"r{r}", c, v)
                if r == me:
                    layers[li].set(at(c), v)
                    if not rw:
                        got = layers[li].get(at(c)).item()
                        cx.check(got == rnd(dtype, v), "a value written into the buffer is not read back before synchronising", c, got, v)
                    st["obs_buffer_writes"] += 1
                shadows[li][wi].dirty[r, c] = 1
            else:
                cx.op("grid-add", li, f"r{r}")
                if r == me:
                    (layers[li].write_grid if rw else layers[li].grid).add_(1)
                sh = shadows[li][wi]
                for c in local:
                    sh.own[c] = (torch.tensor(sh.own[c], dtype=dtype) + 1).item()
                for c in reach[r]:
                    sh.dirty[r, c] = 1
                if n == 1 or True:
                    pass
        if rng.random() < 0.3:
            verify(False)
        if rw and rng.random() < 0.6:
            li = rng.randrange(len(layers))
            cx.op("swap", li)
            layers[li].swap_layers()
            shadows[li].reverse()
            st["obs_swaps"] += 1
            if rng.random() < 0.4:
                verify()
        if rng.random() < 0.75:
            cx.op("synchronize")
            ctx.synchronize(lambda d: None)
            nsync += 1
            for shs in shadows:
                for sh in shs:
                    sh.sync()
            verify()
            st["obs_syncs"] += 1
    cx.nontrivial = nsync > 0 and n > 1


def case(cx):
    (case_single if cx.profile["mode"] == "single" else case_shared)(cx)
