"""Reference arithmetic, written independently of the library: borders, regions, buffer membership."""
import math


def wrap1(v, lo, ext):
    return (v - lo) % ext + lo


def clamp_int(v, lo, ext):
    return max(lo, min(lo + ext - 1, v))


class Bounds:
    """Plain bounds: mins and extents (extent 0 = dimension unused)."""

    def __init__(self, mins, exts):
        self.mins, self.exts = tuple(mins), tuple(exts)
        self.nd = 1 + (exts[1] > 0) + (exts[2] > 0)

    def box(self):
        from repast4py.space import BoundingBox
        return BoundingBox(self.mins[0], self.exts[0], self.mins[1], self.exts[1], self.mins[2], self.exts[2])

    def contains(self, p):
        return all(self.mins[d] <= p[d] < self.mins[d] + self.exts[d] for d in range(self.nd))

    def cells(self):
        rs = [range(self.mins[d], self.mins[d] + self.exts[d]) if d < self.nd else (0,) for d in range(3)]
        return [(x, y, z) for x in rs[0] for y in rs[1] for z in rs[2]]

    def __repr__(self):
        return f"{self.mins}+{self.exts}"


def from_box(b):
    return Bounds((b.xmin, b.ymin, b.zmin), (b.xextent, b.yextent, b.zextent))


STICKY_OFF = 0.00000001


def sticky_max(hi):
    """The largest value of a continuous dimension that ends before hi (the offset vanishes by rounding when hi is large)."""
    return min(hi - STICKY_OFF, math.nextafter(float(hi), -math.inf))


def border_grid(p, gb, periodic):
    out = [0, 0, 0]
    for d in range(gb.nd):
        out[d] = wrap1(p[d], gb.mins[d], gb.exts[d]) if periodic else clamp_int(p[d], gb.mins[d], gb.exts[d])
    return tuple(out)


def border_cs(p, gb, periodic):
    """Continuous: returns a list of acceptable values per dimension as (value, tolerance)."""
    out = []
    for d in range(gb.nd):
        lo, ext = gb.mins[d], gb.exts[d]
        if lo <= p[d] < lo + ext and (periodic or p[d] <= sticky_max(lo + ext)):
            out.append((p[d], 1e-9 if periodic else 0.0))
        elif periodic:
            out.append((wrap1(p[d], lo, ext), 1e-6 * max(1.0, abs(p[d]) * 1e-6)))
        else:
            out.append((float(lo) if p[d] < lo else sticky_max(lo + ext), 1e-7))
    return out


def dist1(v, lo, ext, glo, gext, periodic, single):
    """Is v within reach of the interval [lo, lo+ext)?  Returns the gap (0 when inside), for integer cells or reals:
    the gap g is such that v lies in the strip of width b next to the interval iff 0 < gap... handled by in_reach."""
    raise NotImplementedError


def in_strip(v, lo, ext, b, glo, gext, periodic):
    """v (already inside the global range) lies in [lo-b, lo+ext+b), taking periodic images."""
    imgs = (v,) if not periodic else (v - gext, v, v + gext)
    return any(lo - b <= w < lo + ext + b for w in imgs)


def in_reach(p, local, b, gb, periodic):
    return all(in_strip(p[d], local.mins[d], local.exts[d], b, gb.mins[d], gb.exts[d], periodic) for d in range(gb.nd))


def owner(p, regions):
    for r, lb in enumerate(regions):
        if lb.contains(p):
            return r
    return None


def dims_create(n, nd):
    """Balanced factorisation as MPI_Dims_create gives it (used to pick worlds that are big enough)."""
    from mpi4py import MPI
    return MPI.Compute_dims(n, nd)
