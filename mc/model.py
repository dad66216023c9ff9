"""Independent reference model: which blocks a task has and how they relate, from plain integer intervals.

Nothing in here uses daisy; boxes are tuples of (begin, end) pairs, one per axis.
"""

from itertools import product


class Geo:
    """A task geometry: total ROI, read ROI and write ROI as (offset, shape) pairs, fit and conflict flag."""

    __slots__ = ("toff", "tshape", "roff", "rshape", "woff", "wshape", "fit", "conflict")

    def __init__(self, toff, tshape, roff, rshape, woff, wshape, fit="valid", conflict=True):
        self.toff, self.tshape = tuple(toff), tuple(tshape)
        self.roff, self.rshape = tuple(roff), tuple(rshape)
        self.woff, self.wshape = tuple(woff), tuple(wshape)
        self.fit, self.conflict = fit, conflict

    @staticmethod
    def make(toff, tshape, c0, w, c1, fit="valid", conflict=True, base=None):
        """From contexts: read ROI begins at ``base`` (default: origin)."""
        base = base or (0,) * len(w)
        rshape = tuple(a + b + c for a, b, c in zip(c0, w, c1))
        woff = tuple(b + a for b, a in zip(base, c0))
        return Geo(toff, tshape, base, rshape, woff, w, fit, conflict)

    def spec(self):
        return [list(self.toff), list(self.tshape), list(self.roff), list(self.rshape), list(self.woff),
                list(self.wshape), self.fit, self.conflict]

    def __repr__(self):
        return "Geo(total=%s+%s read=%s+%s write=%s+%s %s %s)" % (
            list(self.toff), list(self.tshape), list(self.roff), list(self.rshape), list(self.woff),
            list(self.wshape), self.fit, "conflict" if self.conflict else "noconflict")

    @property
    def dims(self):
        return len(self.toff)

    @property
    def ctx(self):
        c0 = tuple(w - r for w, r in zip(self.woff, self.roff))
        c1 = tuple(ro + rs - wo - ws for ro, rs, wo, ws in zip(self.roff, self.rshape, self.woff, self.wshape))
        return c0, c1

    def total_write(self):
        c0, c1 = self.ctx
        return tuple((o + a, o + s - b) for o, s, a, b in zip(self.toff, self.tshape, c0, c1))

    def counts(self):
        out = []
        for (b, e), w in zip(self.total_write(), self.wshape):
            n = e - b
            if n <= 0:
                out.append(0)
            elif self.fit == "valid":
                out.append(n // w)
            else:
                out.append(-(-n // w))
        return tuple(out)

    def blocks(self):
        """{grid index: (read box, write box)}"""
        tw = self.total_write()
        c0, c1 = self.ctx
        out = {}
        for idx in product(*(range(n) for n in self.counts())):
            rb, wb = [], []
            for i, (b, e), w, a, z in zip(idx, tw, self.wshape, c0, c1):
                lo, hi = b + i * w, b + i * w + w
                if self.fit == "shrink":
                    hi = min(hi, e)
                wb.append((lo, hi))
                rb.append((lo - a, hi + z))
            out[idx] = (tuple(rb), tuple(wb))
        return out


def overlap(a, b):
    return all(x0 < y1 and y0 < x1 and x0 < x1 and y0 < y1 for (x0, x1), (y0, y1) in zip(a, b))


def contains(a, b):
    return all(x0 <= y0 and y1 <= x1 for (x0, x1), (y0, y1) in zip(a, b))


def box(roi):
    """(real ROI) -> box"""
    return tuple((int(b), int(b) + int(s)) for b, s in zip(roi.offset, roi.shape))


def expand_to_grid(roi_box, origin, step):
    """Smallest box containing roi_box with bounds on origin + k * step."""
    out = []
    for (b, e), o, s in zip(roi_box, origin, step):
        lo = o + ((b - o) // s) * s
        hi = o - (-(e - o) // s) * s
        out.append((lo, hi))
    return tuple(out)
