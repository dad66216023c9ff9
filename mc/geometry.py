"""Geometry engine: C01, C20, C22 (within tasks), C19.

Every geometry of a bounded universe is given to the real dependency graph / scheduler, and everything that can be
asked about its blocks is compared with the interval oracle of mc.model.
"""

import copy
import pickle
from itertools import combinations, product

from .core import Result, Violation
from .model import Geo, box, contains, expand_to_grid, overlap

FITS = ("valid", "overhang", "shrink")


# ---------------------------------------------------------------------------------------------------------------
# universes


def universe_long(tier):
    """1-D volumes with many blocks, wide contexts and large write shapes; some with four dimensions."""
    for t in (12, 17, 24, 33) if tier == "quick" else (12, 15, 17, 20, 24, 29, 33, 48, 65):
        for c0, c1 in ((0, 0), (0, 5), (4, 1), (7, 7), (9, 0), (2, 12)):
            for w in (1, 2, 5, 8, 11):
                for toff, base in ((0, 0), (-13, 4)):
                    yield (toff,), (t,), (c0,), (w,), (c1,), (base,)
    for t, w in ((150, 1), (700, 3)):
        yield (-7,), (t,), (2,), (w,), (1,), (3,)
    axes = [(0, 2, 0, 1, 0, 0), (-2, 4, 1, 1, 1, 0)]
    for a in product(axes, repeat=4):
        yield tuple(zip(*a))


def universe_1d(tier):
    offs = [(0, 0), (-4, 0), (3, -2), (-1, 5)] if tier == "quick" else list(product((0, -1, -4, 3, 7), (0, -2, 5)))
    tmax = 11 if tier == "quick" else 14
    cs = range(0, 4) if tier == "quick" else range(0, 5)
    ws = range(1, 4) if tier == "quick" else range(1, 5)
    for t in range(1, tmax + 1):
        for c0, w, c1 in product(cs, ws, cs):
            for toff, base in offs:
                yield (toff,), (t,), (c0,), (w,), (c1,), (base,)
    # large coordinates (beyond what floats can represent)
    big = 10**17
    for t, c0, w, c1 in product((3, 4, 7), (0, 1, 2), (1, 2), (0, 1)):
        yield (-big + 1,), (t,), (c0,), (w,), (c1,), (big,)
        yield (3,), (t * big + 1,), (c0 * big,), (w * big,), (c1 * big,), (-7,)


def universe_2d(tier):
    # all pairs of axis configurations out of a list with one representative per kind of axis: too small, exactly one
    # block, even division, remainder, stride larger than the volume, asymmetric contexts, no context
    axes = [
        # toff, t, c0, w, c1, base
        (0, 2, 0, 1, 0, 0),
        (-3, 5, 1, 1, 1, 0),
        (2, 6, 1, 2, 0, -1),
        (0, 7, 2, 2, 1, 0),
        (0, 3, 2, 1, 1, 0),
        (-1, 5, 0, 2, 3, 4),
        (0, 6, 0, 1, 1, 0),
        (5, 8, 3, 1, 0, 0),
    ]
    if tier != "quick":
        axes += [(-7, 9, 2, 1, 2, 3), (0, 10, 1, 3, 1, 0), (4, 7, 0, 3, 0, -2), (0, 9, 4, 1, 1, 0), (1, 1, 0, 1, 0, 0)]
    for a in product(axes, repeat=2):
        yield tuple(zip(*a))


def universe_3d(tier):
    axes = [(0, 3, 0, 1, 1, 0), (-2, 4, 1, 1, 1, 0), (1, 5, 0, 2, 0, 2)]
    if tier != "quick":
        axes += [(0, 2, 1, 1, 1, 0), (0, 5, 2, 1, 0, -3), (0, 6, 1, 2, 1, 0)]
    for a in product(axes, repeat=3):
        yield tuple(zip(*a))
    if tier != "quick":
        for a in product(axes[:2], repeat=4):
            yield tuple(zip(*a))


def universe_deep(tier):
    """Four and five dimensions, and many levels (wide contexts, which let few blocks run at once)."""
    axes = [(0, 3, 0, 1, 1, 0), (-2, 4, 1, 1, 1, 0)]
    for a in product(axes, repeat=4):
        yield tuple(zip(*a))
    yield tuple(zip(*[axes[0]] * 5))
    for c0, c1 in ((30, 30), (0, 33), (29, 2)):
        yield (1,), (40 + c0 + c1,), (c0,), (1,), (c1,), (0,)
        yield (0,), (81 + c0 + c1,), (c0,), (2,), (c1,), (-3,)
    for c0, c1 in ((5, 5), (0, 4), (5, 1)):
        yield tuple(zip((0, 6 + c0 + c1, c0, 1, c1, 0), (-3, 6 + c0 + c1, c0, 1, c1, 1)))
    for c0, c1 in ((2, 2), (3, 0), (0, 3), (1, 3)):
        yield tuple(zip(*[(0, 4 + c0 + c1, c0, 1, c1, 0)] * 3))


def universe(dims, tier):
    gen = {1: universe_1d, 2: universe_2d, 3: universe_3d, 8: universe_deep, 9: universe_long}[dims]
    for toff, t, c0, w, c1, base in gen(tier):
        for fit in FITS:
            for conflict in (True, False):
                yield Geo.make(toff, t, c0, w, c1, fit, conflict, base)


# ---------------------------------------------------------------------------------------------------------------
# the real thing


def R(off, shape):
    from daisy import Roi

    return Roi(off, shape)


def make_task(geo, task_id="t", upstream=(), process=None, **kw):
    from daisy import Task

    return Task(
        task_id,
        R(geo.toff, geo.tshape),
        R(geo.roff, geo.rshape),
        R(geo.woff, geo.wshape),
        process_function=process or (lambda block: None),
        read_write_conflict=geo.conflict,
        fit=geo.fit,
        upstream_tasks=list(upstream),
        **kw,
    )


def make_graph(geo, task_id="t", by="read"):
    from daisy import BlockwiseDependencyGraph

    kw = {}
    if by in ("read", "both"):
        kw["total_read_roi"] = R(geo.toff, geo.tshape)
    if by in ("write", "both"):
        tw = geo.total_write()
        kw["total_write_roi"] = R([b for b, _ in tw], [e - b for b, e in tw])
    return BlockwiseDependencyGraph(
        task_id, R(geo.roff, geo.rshape), R(geo.woff, geo.wshape), geo.conflict, geo.fit, **kw
    )


def rw(block):
    return (box(block.read_roi), box(block.write_roi))


class Bad(Exception):
    def __init__(self, props, what):
        self.props, self.what = props, what


def expect(cond, props, what):
    if not cond:
        raise Bad(props, what)


def drain(scheduler, task_ids):
    """Success run: hand out everything, one at a time."""
    from daisy import BlockStatus

    out = []
    progress = True
    while progress:
        progress = False
        for t in task_ids:
            b = scheduler.acquire_block(t)
            if b is not None:
                progress = True
                out.append(b)
                b.status = BlockStatus.SUCCESS
                scheduler.release_block(b)
                if len(out) > 10000:
                    raise Bad(("C01", "C04"), "scheduler hands out blocks without end")
    return out


def check_c01(geo, res):
    from daisy import Scheduler

    want = sorted(geo.blocks().values())
    n = 0
    graphs = [("graph", make_graph(geo))]
    if all(e > b for b, e in geo.total_write()):
        graphs.append(("graph by total write ROI", make_graph(geo, by="both")))
    for name, g in graphs:
        got = [b for b, _ in g.enumerate_all_dependencies()]
        expect(sorted(map(rw, got)) == want, ("C01",), f"{name}: blocks {sorted(map(rw, got))}, expected {want}")
        expect(int(g.num_blocks) == len(want), ("C01",), f"{name}: num_blocks {g.num_blocks}, expected {len(want)}")
        n += len(got)
    task = make_task(geo)
    s = Scheduler([task])
    st = s.task_states["t"]
    expect(int(st.total_block_count) == len(want), ("C01",), f"total_block_count {st.total_block_count} for {len(want)} blocks")
    got = drain(s, ["t"])
    expect(sorted(map(rw, got)) == want, ("C01",), f"scheduler hands out {sorted(map(rw, got))}, expected {want}")
    expect(bool(st.is_done()), ("C01",), f"task with all {len(want)} blocks processed is not done: {st}")
    for b in got:
        expect(b.task_id == "t", ("C01", "C22"), "block of wrong task")
    tw = tuple((b, e) for b, e in geo.total_write())
    if geo.fit != "overhang" and want:
        tot = tuple((o, o + s_) for o, s_ in zip(geo.toff, geo.tshape))
        expect(all(contains(tot, r) and contains(tw, w) for r, w in map(rw, got)), ("C01",), "block leaves the total ROI")
    for a, b in combinations(got, 2):
        expect(not overlap(rw(a)[1], rw(b)[1]), ("C01",), f"write ROIs overlap: {a} {b}")
    return n + len(got), f"{len(want)} blocks"


def dep_maps(geo, upstream, downstream, blocks):
    ups = {b.block_id: [u for u in upstream(b)] for b in blocks}
    downs = {b.block_id: [d for d in downstream(b)] for b in blocks}
    return ups, downs


def check_intask(geo, res):
    """C20 within a task: symmetric, acyclic, orders all conflicts, nothing without conflict."""
    g = make_graph(geo)
    pairs = list(g.enumerate_all_dependencies())
    blocks = [b for b, _ in pairs]
    ids = {b.block_id: b for b in blocks}
    P = ("C20",)
    ups, downs = dep_maps(geo, g.upstream, g.downstream, blocks)
    for b, enum_ups in pairs:
        expect({u.block_id for u in enum_ups} == {u.block_id for u in ups[b.block_id]}, P,
               f"enumerated and queried upstream of {b} differ")
    edges = set()
    for bid in ids:
        for rel, m in (("upstream", ups), ("downstream", downs)):
            l = [x.block_id for x in m[bid]]
            expect(len(l) == len(set(l)), P, f"{rel} of {ids[bid]} lists a block twice")
            for x in m[bid]:
                expect(x.block_id in ids and rw(x) == rw(ids[x.block_id]), P,
                       f"{rel} of {ids[bid]} contains {x}, which is no block of the task")
                expect(x.block_id != bid, P, f"{ids[bid]} depends on itself")
        edges |= {(u.block_id, bid) for u in ups[bid]}
    rev = {(bid, d.block_id) for bid in ids for d in downs[bid]}
    expect(edges == rev, P, f"upstream and downstream disagree: {sorted(edges ^ rev)[:4]}")
    if not geo.conflict:
        expect(not edges, P, f"dependencies without conflict: {sorted(edges)[:4]}")
    # acyclic + ancestors
    anc = {}
    state = {}

    def visit(b):
        if state.get(b) == 2:
            return anc[b]
        expect(state.get(b) != 1, P, f"dependency cycle through {ids[b]}")
        state[b] = 1
        a = set()
        for u in ups[b]:
            a |= visit(u.block_id) | {u.block_id}
        anc[b] = a
        state[b] = 2
        return a

    for b in ids:
        visit(b)
    if geo.conflict:
        for a, b in combinations(blocks, 2):
            ra, wa = rw(a)
            rb, wb = rw(b)
            if overlap(ra, wb) or overlap(rb, wa):
                expect(a.block_id in anc[b.block_id] or b.block_id in anc[a.block_id], ("C20", "C02"),
                       f"conflicting blocks {a} and {b} are not ordered by any dependency")
    return len(edges), f"{len(blocks)} blocks {len(edges)} edges"


def sub_rois(geo, limit=3):
    """Sub-ROIs: boxes whose bounds per axis are all pairs out of a few interesting positions."""
    tw = geo.total_write()
    axes = []
    for (b, e), w in zip(tw, geo.wshape):
        pts = sorted({b - 3, b - 1, b, b + 1, b + w, b + w + 1, e - 1, e, e + 1, e + w, e + w + 4})
        axes.append([(x, y) for x, y in combinations(pts, 2)])
    if geo.dims == 1:
        yield from product(*axes)
    else:
        # per axis a thinned list; all combinations
        thin = [a[:: max(1, len(a) // limit)] for a in axes]
        yield from product(*thin)


def check_subgraph(geo, res):
    """C20: sub-ROI queries are exact."""
    g = make_graph(geo)
    blocks = geo.blocks().values()
    n = 0
    for sub in sub_rois(geo, 3 if geo.dims == 3 else 6):
        roi = R([b for b, _ in sub], [e - b for b, e in sub])
        for read in (False, True):
            want = sorted(x for x in blocks if overlap(x[0 if read else 1], sub))
            got = sorted(map(rw, g.get_subgraph_blocks(roi, read_roi=read)))
            expect(got == want, ("C20",),
                   f"blocks whose {'read' if read else 'write'} ROI overlaps {roi}: got {got}, expected {want}")
            n += 1
    return n, f"{len(list(blocks))} blocks"


def _changes():
    from daisy import BlockStatus, Roi

    def put(**kw):
        def change(b):
            for k, v in kw.items():
                setattr(b, k, v(b) if callable(v) else v)
        return change

    for st in BlockStatus:
        yield f"its status became {st}", put(status=st)
    yield "it was processed", put(started_processing=1.0, stopped_processing=2.0, status=BlockStatus.SUCCESS)
    for k in ("read_roi", "write_roi"):
        yield f"its {k} was clipped", put(**{k: lambda b, k=k: Roi(getattr(b, k).begin, (1,) * getattr(b, k).dims)})


class _Changes:
    def __iter__(self):
        return _changes()


CHANGES = _Changes()


def check_ids(geo, res):
    """C22 within a task."""
    from daisy import Scheduler, BlockStatus

    P = ("C22",)
    g = make_graph(geo)
    blocks = [b for b, _ in g.enumerate_all_dependencies()]
    model = geo.blocks()
    by_pos = {}
    byid = {}
    for b in blocks:
        expect(b.block_id[0] == "t" and b.task_id == "t", P, f"task of block {b.block_id}")
        expect(b.block_id not in byid, P, f"{byid.get(b.block_id)} and {b} share ID {b.block_id}")
        byid[b.block_id] = b
        by_pos[rw(b)] = b.block_id
    n = 0

    def same(b, how):
        nonlocal n
        n += 1
        expect(rw(b) in by_pos and by_pos[rw(b)] == b.block_id, P,
               f"{how}: block {b} has ID {b.block_id}, enumeration says {by_pos.get(rw(b))}")
        o = byid[b.block_id]
        expect(b == o and hash(b) == hash(o) and not (b != o), P, f"{how}: equal IDs, but not equal/hash: {b}")

    for b in blocks:
        for x in g.upstream(b):
            same(x, "upstream")
        for x in g.downstream(b):
            same(x, "downstream")
        for x in g.get_subgraph_blocks(b.write_roi):
            same(x, "sub-ROI")
        for x in g.get_subgraph_blocks(b.read_roi, read_roi=True):
            same(x, "sub-ROI (read)")
        c = pickle.loads(pickle.dumps(b))
        same(c, "pickled")
        expect(rw(c) == rw(b) and c.status == b.status, P, "pickled copy differs")
        same(b.copy(), "copy")
        # what happens to a block (it is processed, user code clips it) does not make it another one
        for how, change in CHANGES:
            c = b.copy()
            change(c)
            n += 1
            expect(c.block_id == b.block_id and c == b and not (c != b) and hash(c) == hash(b) and c in {b} and b in [c], P,
                   f"{b} is not equal to (or found as) itself after {how}")
    for a, b in combinations(blocks, 2):
        expect(a != b and not (a == b), P, f"different blocks compare equal: {a} {b}")
        expect(hash(a) != hash(b) or a.block_id != b.block_id, P, "hash")
    # the same position in another task is another block
    other = [b for b, _ in make_graph(geo, "u").enumerate_all_dependencies()]
    for a, b in zip(blocks, other):
        n += 1
        expect(a.block_id != b.block_id, P, f"blocks of different tasks share ID {a.block_id}")
        expect(a != b and not (a == b), P, f"blocks of different tasks compare equal: {a} {b}")
    if len(blocks) <= 2:
        # whatever the tasks are called
        names = ("t", "T", "tt", " t", "t ", "t_", "t/0", "t1", "1t", "", "ü", "Ü", "u\u0308", "('t', 0)", "x" * 300, "x" * 300 + "y")
        seen = {}
        for name in names:
            for b, _ in make_graph(geo, name).enumerate_all_dependencies():
                n += 1
                expect(b.task_id == name and b.block_id[0] == name, P, f"the block {b.block_id} of the task {name!r} has the task ID {b.task_id!r}")
                expect(b.block_id not in seen and b not in seen.values(), P, f"blocks of the tasks {name!r} and another one share ID {b.block_id}")
                seen[b.block_id] = b
    for a in blocks[:1]:
        expect(not (a == None) and a != None, P, "a block compares equal to None")  # noqa: E711
    s = Scheduler([make_task(geo, max_retries=1)])
    failed = set()
    while True:
        b = s.acquire_block("t")
        if b is None:
            break
        same(b, "hand-out")
        if b.block_id not in failed:
            failed.add(b.block_id)
            b.status = BlockStatus.FAILED
        else:
            b.status = BlockStatus.SUCCESS
        s.release_block(b)
    expect(failed == set(byid), P, "handed-out IDs differ from enumerated ones")
    # the ID depends only on the position in the grid: moving the whole task does not change it
    d = geo.dims
    shift = tuple((5, -7, 11, 2)[:d])
    moved = Geo([o + x for o, x in zip(geo.toff, shift)], geo.tshape, geo.roff, geo.rshape, geo.woff, geo.wshape,
                geo.fit, geo.conflict)
    for b, _ in make_graph(moved).enumerate_all_dependencies():
        back = tuple(tuple((lo - x, hi - x) for (lo, hi), x in zip(bx, shift)) for bx in rw(b))
        expect(by_pos.get(back) == b.block_id, P, f"ID of {b} changes when the task is moved by {shift}")
        n += 1
    return n, f"{len(blocks)} ids"


CHECKS = {"C01": [check_c01], "C20": [check_intask, check_subgraph], "C22": [check_ids]}


def huge_cases(tier):
    """Volumes far too large to enumerate: (blocks per axis, write size, context, rest, fit, conflict)."""
    counts = [(2 ** 15,) * 2, (2 ** 16, 2 ** 16), (46341, 46341), (2 ** 16, 2 ** 15), (1291, 1291, 1291), (2 ** 11,) * 3, (1, 2 ** 16, 2 ** 16),
              (10 ** 4, 10 ** 5, 10 ** 5), (2 ** 18, 3, 2 ** 18), (2 ** 18 + 1,) * 3, (2 ** 18, 2 ** 18, 2 ** 17)]
    for n in counts:
        for w in (1, 7, 64):
            if max(n) * w >= 2 ** 62:
                continue
            for c in (0, 1, w):
                for rest in sorted({0, min(1, w - 1), w - 1}):
                    for fit in FITS:
                        for conflict in (True, False):
                            yield n, w, c, rest, fit, conflict


def huge_one(n, w, c, rest, fit, conflict):
    from daisy import BlockStatus, Roi, Scheduler, Task

    dims = len(n)
    # the last axis has a rest that does not make a full block
    tshape = [k * w + 2 * c + (rest if i == dims - 1 else 0) for i, k in enumerate(n)]
    last = n[-1] + (1 if rest and fit != "valid" else 0)
    total = 1
    for k in (*n[:-1], last):
        total *= k
    task = Task("t", Roi((5,) * dims, tshape), Roi((0,) * dims, (w + 2 * c,) * dims), Roi((c,) * dims, (w,) * dims),
                process_function=lambda b: None, read_write_conflict=conflict, fit=fit)
    s = Scheduler([task])
    st = s.task_states["t"]
    expect(int(st.total_block_count) == total, ("C01", "C07"), f"total_block_count is {st.total_block_count}, should be {total}")
    expect(int(s.dependency_graph.num_blocks("t")) == total, ("C01",), f"num_blocks is {s.dependency_graph.num_blocks('t')}, should be {total}")
    seen = set()
    # (what lists the positions along an axis is fine, for axes that exist)
    for i in range(6 if max(n) <= 2 ** 16 else 0):
        b = s.acquire_block("t")
        expect(b is not None, ("C01", "C04"), f"only {i} blocks are handed out")
        r, wr = rw(b)
        for d in range(dims):
            k, m = divmod(wr[d][0] - 5 - c, w)
            expect(m == 0 and 0 <= k < (n[d] if d < dims - 1 else last), ("C01",), f"block {b} is not on the grid")
            expect(r[d][0] == wr[d][0] - c, ("C01",), f"read ROI of {b}")
        expect(wr not in seen, ("C01",), f"{b} twice")
        seen.add(wr)
        if i % 2:
            b.status = BlockStatus.SUCCESS
            s.release_block(b)
    return 10


def far_one(n, w, c, rest, fit, conflict):
    """C20 and C22 at the ends and in the middle of a volume that is too large to enumerate."""
    from daisy import Roi

    dims = len(n)
    tshape = [k * w + 2 * c + (rest if i == dims - 1 else 0) for i, k in enumerate(n)]
    g = make_graph(Geo((5,) * dims, tshape, (0,) * dims, (w + 2 * c,) * dims, (c,) * dims, (w,) * dims, fit, conflict))
    ids, steps = {}, 0
    for where in product((0, 1, 2), repeat=dims):
        # the first two blocks of an axis, two in the middle, the last two full ones
        at = [max(0, (0, k // 2, k - 2)[x]) for x, k in zip(where, n)]
        num = [min(2, k) for k in n]
        want = {tuple((5 + c + i * w, 5 + c + (i + 1) * w) for i in idx) for idx in product(*[range(a, a + m) for a, m in zip(at, num)])}
        got = list(g.get_subgraph_blocks(Roi([5 + c + a * w for a in at], [m * w for m in num])))
        expect({rw(b)[1] for b in got} == want and len(got) == len(want), ("C20",), f"blocks at {at}: {got}")
        for b in got:
            steps += 1
            r, wr = rw(b)
            expect(r == tuple((lo - c, hi + c) for lo, hi in wr), ("C20",), f"read ROI of {b}")
            expect(ids.setdefault(b.block_id, wr) == wr, ("C22",), f"the blocks that write {wr} and {ids[b.block_id]} share the ID {b.block_id}")
            p = pickle.loads(pickle.dumps(b))
            expect(p == b and p.block_id == b.block_id and rw(p) == rw(b), ("C22",), f"a copy of {b} differs")
            for o, back in [(u, g.downstream) for u in g.upstream(b)] + [(d, g.upstream) for d in g.downstream(b)]:
                steps += 1
                ow = rw(o)[1]
                expect(ids.setdefault(o.block_id, ow) == ow, ("C22",), f"the blocks that write {ow} and {ids[o.block_id]} share the ID {o.block_id}")
                expect(b in list(back(o)), ("C20",), f"dependency between {b} and {o} is not symmetric")
    for wr in set(ids.values()):
        expect(sum(1 for x in ids.values() if x == wr) == 1, ("C22",), f"the block that writes {wr} has several IDs")
    return steps


def far_sweep(tier, k, parts):
    res = Result()
    i = 0
    for case in huge_cases(tier):
        n, w, c, rest, fit, conflict = case
        if w == 7 and tier == "quick" or (c > 1 and conflict):
            continue
        for m in (n, tuple(x * 10 ** 3 for x in n), tuple(x * 10 ** 6 for x in n)):
            if max(m) * w >= 2 ** 62:
                continue
            i += 1
            if i % parts != k:
                continue
            res.states += 1
            res.executions += 1
            res.validated += 1
            args = {"func": "mc.geometry:far_replay", "args": [list(m), w, c, rest, fit, conflict]}
            try:
                res.transitions += far_one(m, w, c, rest, fit, conflict)
                res.outcome("far")
            except Bad as e:
                res.violations.append(Violation(e.props, f"{m, *case[1:]}: {e.what}", replay=args))
            except Exception as e:
                res.violations.append(Violation(("C20", "C22"), f"{m, *case[1:]}: {e!r}", replay=args))
            if len(res.violations) >= 3:
                return res
    return res


def far_replay(n, *args):
    res = Result()
    try:
        far_one(tuple(n), *args)
    except Bad as e:
        res.violations.append(Violation(e.props, e.what))
    return res


def huge_sweep(tier):
    res = Result()
    for case in huge_cases(tier):
        res.states += 1
        res.executions += 1
        res.validated += 1
        args = {"func": "mc.geometry:huge_replay", "args": list(case)}
        try:
            res.transitions += huge_one(*case)
            res.outcome("huge")
        except Bad as e:
            res.violations.append(Violation(e.props, f"{case}: {e.what}", replay=args))
        except Exception as e:
            res.violations.append(Violation(("C01",), f"{case}: {e!r}", replay=args))
        if len(res.violations) >= 3:
            break
    return res


def huge_replay(n, *args):
    res = Result()
    try:
        huge_one(tuple(n), *args)
    except Bad as e:
        res.violations.append(Violation(e.props, e.what))
    except Exception as e:
        res.violations.append(Violation(("C01",), repr(e)))
    return res


def run_one(prop, geo):
    """All checks of a property on one geometry: (number of comparisons, outcome, violation or None)."""
    total, outs = 0, []
    for fn in CHECKS[prop]:
        if fn is check_subgraph and len(geo.toff) > 3:
            continue
        try:
            n, out = fn(geo, None)
            total += n
            outs.append(out)
        except Bad as e:
            return total, "bad", Violation(e.props, f"{geo}: {e.what}",
                                           replay={"func": "mc.geometry:replay_one", "args": [prop, geo.spec()]})
        except Exception as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            where = tb[-1].filename
            return total, "bad", Violation((prop,), f"{geo}: {fn.__name__}: {e!r} at {where}:{tb[-1].lineno}",
                                           replay={"func": "mc.geometry:replay_one", "args": [prop, geo.spec()]})
    return total, "; ".join(outs), None


def replay_one(prop, spec):
    res = Result()
    n, out, v = run_one(prop, Geo(*spec))
    if v:
        res.violations.append(v)
    return res


def sweep(prop, dims, tier, k, n):
    res = Result()
    for i, geo in enumerate(universe(dims, tier)):
        if i % n != k:
            continue
        res.states += 1
        c, out, v = run_one(prop, geo)
        res.transitions += c
        res.validated += 1
        res.executions += 1
        res.outcome(out)
        if i % 97 == 0:
            res.sample(f"{geo}: {out}", 1)
        if v:
            res.violations.append(v)
            if len(res.violations) >= 3:
                break
    return res


# ---------------------------------------------------------------------------------------------------------------
# C19


def c19_cases(dims, tier):
    if dims == 1:
        offs = range(-7, 8) if tier == "quick" else range(-13, 14)
        shapes = range(1, 7) if tier == "quick" else range(1, 12)
        ws = range(1, 5) if tier == "quick" else range(1, 8)
        bases = (-3, 0, 2) if tier == "quick" else (-5, -3, 0, 2, 7)
        tots = (-4, 0, 1, 5)
        c0s = (0, 1, 2)
        for o, s, w, b, t, c0 in product(offs, shapes, ws, bases, tots, c0s):
            yield ((o,), (s,), (w,), (b,), (t,), (c0,))
        for o, s, w, t in product((-(2**60) - 1, 2**60 + 1), (1, 5), (3, 4), (0, 2**59 + 1)):
            yield ((o,), (s,), (w,), (0,), (t,), (1,))
    else:
        axes = [(-5, 3, 2, 0, 0, 0), (-1, 4, 3, -3, -4, 1), (0, 6, 3, 0, 0, 0), (2, 3, 2, 0, 1, 1), (7, 1, 4, 2, 5, 2),
                (-8, 8, 4, 0, 0, 0)]
        for a in product(axes, repeat=dims):
            yield tuple(zip(*a))


def c19_one(o, s, w, base, t, c0):
    from daisy import expand_roi_to_grid, expand_write_roi_to_grid
    from daisy.blocks import expand_request_roi_to_grid

    P = ("C19",)
    roi = R(o, s)
    rb = box(roi)
    woff = tuple(b + c for b, c in zip(base, c0))
    rshape = tuple(c + x + 1 for c, x in zip(c0, w))
    tot = R(t, tuple(20 for _ in t))
    read, write = R(base, rshape), R(woff, w)

    def grid(fn, args, origin, name):
        got = box(fn(*args(roi)))
        want = expand_to_grid(rb, origin, w)
        expect(got == want, P, f"{name}({', '.join(map(str, args(roi)))}) = {got}, expected {want}")
        again = box(fn(*args(fn(*args(roi)))))
        expect(again == want, P, f"{name} applied twice to {roi}: {again} instead of {want}")
        aligned = R([b for b, _ in want], [e - b for b, e in want])
        expect(box(fn(*args(aligned))) == want, P, f"{name} changes the aligned ROI {aligned}")
        expect(box(roi) == rb, P, f"{name} changes its argument")

    # the first block of a task writes at total.begin + (write.begin - read.begin)
    origin = tuple(a + c for a, c in zip(t, c0))
    grid(expand_roi_to_grid, lambda r: (r, tot, read, write), origin, "expand_roi_to_grid")
    grid(expand_write_roi_to_grid, lambda r: (r, write), (0,) * len(w), "expand_write_roi_to_grid")
    # a request: the aligned ROI with the context of the blocks around it
    got = box(expand_request_roi_to_grid(roi, tot, read, write))
    want = tuple((b - c, e + 1) for (b, e), c in zip(expand_to_grid(rb, origin, w), c0))
    expect(tuple(got) == want, P, f"expand_request_roi_to_grid({roi}, {tot}, {read}, {write}) = {got}, expected {want}")
    return 9


def c19_sweep(dims, tier, k, n):
    import traceback

    res = Result()
    for i, case in enumerate(c19_cases(dims, tier)):
        if i % n != k:
            continue
        res.states += 1
        res.executions += 1
        res.validated += 1
        try:
            res.transitions += c19_one(*case)
            o, s = case[0], case[1]
            res.outcome("before" if all(a + b <= 0 for a, b in zip(o, s)) else "across" if any(a < 0 for a in o) else "after")
        except Bad as e:
            res.violations.append(Violation(e.props, e.what, replay={"func": "mc.geometry:c19_replay", "args": [case]}))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res.violations.append(Violation(("C19",), f"{case}: {e!r} at {tb.filename}:{tb.lineno}",
                                            replay={"func": "mc.geometry:c19_replay", "args": [case]}))
        if i % 501 == 0:
            res.sample(f"roi off/shape/write shape/read off/total off/context: {case}", 1)
        if len(res.violations) >= 3:
            break
    return res


def c19_replay(case):
    res = Result()
    try:
        c19_one(*[tuple(c) for c in case])
    except Exception as e:
        res.violations.append(Violation(("C19",), repr(e) + getattr(e, "what", "")))
    return res


# ---------------------------------------------------------------------------------------------------------------
# C22 in another process

FRESH = """
import json, sys
from mc import main
main.load_third_party()
from mc import geometry
print(json.dumps(geometry.id_table(sys.argv[1])))
"""


def id_table(tier):
    """[[ROIs, ID], ...] of the blocks of many geometries, in enumeration order and by sub-ROI queries."""
    out = []
    for dims, step in ((1, 37), (2, 7), (3, 5), (9, 11)):
        for i, geo in enumerate(universe(dims, tier)):
            if i % step:
                continue
            for tid in ("t", "another task"):
                g = make_graph(geo, tid)
                for b, ups in g.enumerate_all_dependencies():
                    out.append([repr(rw(b)), repr(b.block_id)])
                    out.extend([repr(rw(x)), repr(x.block_id)] for x in sorted(ups, key=rw))
    return out


def fresh_processes(tier):
    """IDs do not depend on the process (with its own hash seed) that computes them."""
    import json
    import os
    import subprocess
    import sys

    from .core import VERIF

    res = Result()
    mine = [list(x) for x in id_table(tier)]
    for seed in ("0", "1", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=VERIF)
        p = subprocess.run([sys.executable, "-c", FRESH, tier], env=env, capture_output=True, text=True, cwd=VERIF)
        if p.returncode:
            raise RuntimeError(p.stderr)
        theirs = json.loads(p.stdout)
        res.executions += 1
        res.validated += 1
        res.states += len(theirs)
        res.transitions += len(theirs)
        res.outcome("same IDs" if theirs == mine else "different IDs")
        for a, b in zip(mine, theirs):
            if a != b:
                res.violations.append(Violation(("C22",), f"block {a} of this process is {b} in another one",
                                                replay={"func": "mc.geometry:fresh_processes", "args": [tier]}))
                break
        else:
            if len(mine) != len(theirs):
                res.violations.append(Violation(("C22",), "another process finds other blocks"))
    return res


# ---------------------------------------------------------------------------------------------------------------
# C20 across tasks


def check_cross(specs, give):
    """specs: [(id, geo, [upstream ids])]; dependency queries of the whole graph against the oracle."""
    from daisy import DependencyGraph

    P = ("C20",)
    tasks = {}
    for tid, geo, ups in specs:
        tasks[tid] = make_task(geo, tid, [tasks[u] for u in ups])
    dg = DependencyGraph([tasks[t] for t in give])
    geos = {tid: geo for tid, geo, _ in specs}
    ups_of = {tid: set(ups) for tid, _, ups in specs}
    model = {tid: sorted(geo.blocks().values()) for tid, geo in geos.items()}
    real = {}
    for tid, geo, _ in specs:
        real[tid] = [b for b, _ in make_graph(geo, tid).enumerate_all_dependencies()]
        expect(int(dg.num_blocks(tid)) == len(model[tid]), P, f"num_blocks of {tid}")
    ids = {b.block_id: b for l in real.values() for b in l}
    expect(len(ids) == sum(map(len, real.values())), ("C22", "C20"), "block IDs of different tasks collide")
    edges, rev = set(), set()
    n = 0
    for tid in geos:
        for b in real[tid]:
            ups, downs = dg.upstream(b), dg.downstream(b)
            for x in list(ups) + list(downs):
                expect(x.block_id in ids and rw(x) == rw(ids[x.block_id]), P, f"neighbour {x} of {b} is no block")
            l = [x.block_id for x in ups]
            expect(len(l) == len(set(l)), P, f"upstream of {b} lists a block twice")
            l = [x.block_id for x in downs]
            expect(len(l) == len(set(l)), P, f"downstream of {b} lists a block twice")
            got = sorted((x.task_id,) + rw(x) for x in ups if x.task_id != tid)
            want = sorted((u,) + m for u in ups_of[tid] for m in model[u] if overlap(m[1], rw(b)[0]))
            expect(got == want, P, f"upstream blocks of {b}: got {got}, expected {want}")
            got = sorted((x.task_id,) + rw(x) for x in downs if x.task_id != tid)
            want = sorted((d,) + m for d in geos if tid in ups_of[d] for m in model[d] if overlap(rw(b)[1], m[0]))
            expect(got == want, P, f"downstream blocks of {b}: got {got}, expected {want}")
            edges |= {(x.block_id, b.block_id) for x in ups}
            rev |= {(b.block_id, x.block_id) for x in downs}
            n += len(ups) + len(downs) + 1
    expect(edges == rev, P, f"upstream and downstream disagree: {sorted(edges ^ rev)[:4]}")
    return n, f"{len(edges)} edges"


def run_cross(specs, give, res):
    import traceback

    rep = {"func": "mc.geometry:replay_cross", "args": [[[t, g.spec(), list(u)] for t, g, u in specs], give]}
    res.states += 1
    res.executions += 1
    res.validated += 1
    try:
        n, out = check_cross(specs, give)
        res.transitions += n
        res.outcome(out)
    except Bad as e:
        res.violations.append(Violation(e.props, f"{specs}: {e.what}", replay=rep))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.violations.append(Violation(("C20",), f"{specs}: {e!r} at {tb.filename}:{tb.lineno}", replay=rep))


def replay_cross(specs, give):
    res = Result()
    run_cross([(t, Geo(*g), u) for t, g, u in specs], give, res)
    return res


def cross_sweep(dims, tier, k, n):
    from . import configs

    res = Result()
    if dims == 0:
        for cfg, _ in configs.exhaustive("thorough"):
            run_cross([(t.tid, t.geo, list(t.ups)) for t in cfg.tasks], cfg.give, res)
        # the same geometry in every topology of up to four tasks (each task may depend on any earlier ones)
        g = [configs.g1(3), configs.g1(2, 1, 2, 0, "overhang", rem=1), configs.g1(3, 0, 1, 2, "shrink", True), configs.g1(1, 1, 2, 1, off=1)]
        names = "ABCD"
        for m in (2, 3, 4):
            pairs = [(i, j) for j in range(m) for i in range(j)]
            for bits in product((0, 1), repeat=len(pairs)):
                ups = {j: [i for (i, jj), b in zip(pairs, bits) if b and jj == j] for j in range(m)}
                specs = [(names[j], g[j], [names[i] for i in ups[j]]) for j in range(m)]
                run_cross(specs, [names[j] for j in range(m)], res)
        return res
    gen = configs.pair_universe(tier) if dims == 1 else configs.pair_universe_2d(tier)
    for i, (a, b) in enumerate(gen):
        if i % n != k:
            continue
        run_cross([("A", a, []), ("B", b, ["A"])], ["B"], res)
        if i % 997 == 0:
            res.sample(f"A {a} -> B {b}", 1)
        if len(res.violations) >= 3:
            break
    return res
