"""Small task graphs for the schedule explorations, and universes of task pairs for the sweeps."""

from itertools import product

from .model import Geo
from .sched import Config, TaskSpec


def g1(n, c0=0, w=1, c1=0, fit="valid", conflict=False, off=0, base=0, rem=0):
    """1-D geometry with n full write blocks (plus a remainder), starting to write at ``off``."""
    return Geo.make((off - c0,), (n * w + rem + c0 + c1,), (c0,), (w,), (c1,), fit, conflict, (base,))


def g2(n, c0, w, c1, fit="valid", conflict=False, off=(0, 0), rem=(0, 0)):
    return Geo.make(
        tuple(o - a for o, a in zip(off, c0)),
        tuple(k * x + r + a + b for k, x, r, a, b in zip(n, w, rem, c0, c1)),
        c0, w, c1, fit, conflict,
    )


T = TaskSpec


def exhaustive(tier):
    """[(config, kwargs for sched.explore)]: all schedules."""
    out = []

    def add(name, *tasks, give=None, min_tier="quick", **kw):
        if min_tier == "thorough" and tier == "quick":
            return
        out.append((Config(list(tasks), give, name), kw))

    # single tasks
    add("free3-r1", T("A", g1(3), retries=1))
    add("free4", T("A", g1(4)))
    add("conf4-r1", T("A", g1(4, 1, 1, 1, conflict=True), retries=1))
    add("conf6", T("A", g1(6, 1, 1, 1, conflict=True)))
    add("conf5-asym-shrink", T("A", g1(4, 2, 2, 1, "shrink", True, off=-3, rem=1)))
    add("conf5-asym-overhang", T("A", g1(4, 0, 2, 3, "overhang", True, off=5, base=-2, rem=1)))
    add("conf2d-2x3", T("A", g2((2, 3), (1, 1), (1, 1), (1, 1), conflict=True)))
    add("conf2d-shrink", T("A", g2((2, 2), (0, 1), (2, 1), (1, 0), "shrink", True, rem=(1, 0))))
    add("two-r2", T("A", g1(2), retries=2))
    add("one-r5", T("A", g1(1), retries=5))
    add("two-r3", T("A", g1(2), retries=3))
    add("fan1-5", T("A", g1(1, w=5)), T("B", g1(5), ["A"]))
    add("fan5-1", T("A", g1(5)), T("B", g1(1, w=5), ["A"], retries=4))
    add("zero", T("A", Geo.make((0,), (2,), (1,), (1,), (1,), "valid", True)), T("B", g1(1), ["A"]))
    # two tasks
    add("chain3-3", T("A", g1(3)), T("B", g1(3), ["A"]))
    add("chain4-ctx", T("A", g1(4)), T("B", g1(2, 1, 1, 1, off=1), ["A"]), give=["B"])
    add("chain5-ctx3", T("A", g1(5)), T("B", g1(3, 1, 1, 1, off=1), ["A"]))
    add("chain-asym", T("A", g1(4)), T("B", g1(2, 0, 1, 2), ["A"]))
    add("chain-asym2", T("A", g1(4)), T("B", g1(2, 2, 1, 0, off=2), ["A"]), give=["B", "A"])
    add("chain-coarse-fine", T("A", g1(2, w=2)), T("B", g1(4), ["A"]))
    add("chain-fine-coarse", T("A", g1(4)), T("B", g1(2, w=2), ["A"]))
    add("chain-overhang", T("A", g1(1, w=2, rem=1, fit="overhang")), T("B", g1(4), ["A"]))
    add("chain-overhang2", T("A", g1(3)), T("B", g1(1, w=2, rem=1, fit="overhang"), ["A"]))
    add("chain-partial", T("A", g1(2, off=1)), T("B", g1(4), ["A"]))
    add("chain-disjoint", T("A", g1(2, off=10)), T("B", g1(2), ["A"]))
    add("chain-conf", T("A", g1(3)), T("B", g1(3, 1, 1, 1, conflict=True), ["A"]))
    add("chain-conf-both", T("A", g1(3, 1, 1, 1, conflict=True)), T("B", g1(3, 1, 1, 0, conflict=True), ["A"]))
    add("chain-r1", T("A", g1(2), retries=1), T("B", g1(2, 1, 1, 0), ["A"], retries=1))
    add("chain-offsets", T("A", g1(3, 1, 2, 0, "shrink", off=-3, base=4, rem=1)), T("B", g1(2, 1, 2, 1, off=-2, base=-5), ["A"]))
    add("two-free", T("A", g1(2)), T("B", g1(2), retries=1))
    # three and four tasks
    add("chain2-2-2", T("A", g1(2)), T("B", g1(2), ["A"]), T("C", g1(2), ["B"]), give=["C"])
    add("fanout", T("A", g1(2)), T("B", g1(2), ["A"]), T("C", g1(1, w=2), ["A"]))
    add("fanin", T("A", g1(2)), T("B", g1(1, w=2)), T("C", g1(2), ["A", "B"]), give=["C"])
    add("fanin-partial", T("A", g1(1)), T("B", g1(1, off=2)), T("C", g1(3), ["A", "B"]), give=["C"])
    add("diamond", T("A", g1(2)), T("B", g1(2), ["A"]), T("C", g1(1, w=2), ["A"]), T("D", g1(2), ["B", "C"]), give=["D"])
    add("triangle", T("A", g1(2)), T("B", g1(2), ["A"]), T("C", g1(2), ["A", "B"]), give=["C", "A"])
    add("diamond1", T("A", g1(1)), T("B", g1(1), ["A"], retries=1), T("C", g1(1), ["A"]), T("D", g1(1), ["B", "C"]))
    # check functions
    add("check1", T("A", g1(3), check=True))
    add("check-conf", T("A", g1(4, 1, 1, 1, conflict=True), check=True))
    add("check-r1", T("A", g1(2), check=True, retries=1))
    add("check-up", T("A", g1(2), check=True), T("B", g1(2), ["A"]))
    add("check-both", T("A", g1(2), check=True), T("B", g1(2), ["A"], check=True))
    add("check-ctx", T("A", g1(3), check=True), T("B", g1(1, 1, 1, 1, off=1), ["A"], check=True), check_exc=False)
    add("check-down", T("A", g1(2)), T("B", g1(2), ["A"], check=True), check_exc=False)
    add("check-chain", T("A", g1(1), check=True), T("B", g1(1), ["A"], check=True), T("C", g1(1), ["B"], check=True))
    # larger
    th = "thorough"
    add("conf8", T("A", g1(8, 1, 1, 1, conflict=True)), min_tier=th)
    add("conf2d-3x3", T("A", g2((3, 3), (1, 1), (1, 1), (1, 1), conflict=True)), min_tier=th)
    add("conf3d", T("A", Geo.make((0, 0, 0), (4, 4, 3), (1, 1, 0), (1, 1, 1), (1, 1, 1), "valid", True)), min_tier=th)
    add("chain6-ctx4", T("A", g1(6)), T("B", g1(4, 1, 1, 1, off=1), ["A"]), min_tier=th)
    add("chain4-4-conf", T("A", g1(4, 1, 1, 1, conflict=True)), T("B", g1(4, 1, 1, 1, conflict=True), ["A"]), min_tier=th)
    add("chain3-3-3", T("A", g1(3)), T("B", g1(3), ["A"]), T("C", g1(3), ["B"]), min_tier=th)
    add("chain-ctx-ctx", T("A", g1(4)), T("B", g1(3, 1, 1, 0, off=1), ["A"]), T("C", g1(2, 0, 1, 1, off=1), ["B"]), min_tier=th)
    add("diamond2", T("A", g1(3)), T("B", g1(2, 0, 1, 1), ["A"]), T("C", g1(2, 1, 1, 0, off=1), ["A"]),
        T("D", g1(2), ["B", "C"]), min_tier=th)
    add("retries3", T("A", g1(3), retries=3), min_tier=th)
    add("chain-r2", T("A", g1(2), retries=2), T("B", g1(2, 1, 1, 0), ["A"], retries=1), min_tier=th)
    add("check-3-3", T("A", g1(3), check=True), T("B", g1(3), ["A"], check=True), min_tier=th, check_exc=False)
    add("check-diamond", T("A", g1(1), check=True), T("B", g1(2), ["A"], check=True), T("C", g1(1), ["A"], check=True),
        T("D", g1(1, w=2), ["B", "C"], check=True), min_tier=th, check_exc=False)
    return out


def large(tier):
    """Larger graphs (degree, depth, number of tasks and blocks), for systematic schedules."""

    def chain(n, blocks, **kw):
        return [T(f"T{i}", g1(blocks, **kw), [f"T{i - 1}"] if i else []) for i in range(n)]

    yield Config([T("A", g1(40, 1, 1, 1, conflict=True), retries=1)], None, "conf40")
    yield Config([T("A", g1(13, 3, 1, 2, conflict=True))], None, "conf13-wide")
    yield Config([T("A", g2((5, 5), (1, 1), (1, 1), (1, 1), conflict=True))], None, "conf5x5")
    yield Config([T("A", Geo.make((0, 0, 0), (5, 5, 5), (1, 1, 1), (1, 1, 1), (1, 1, 1), "valid", True))], None, "conf3x3x3")
    yield Config([T("A", g1(130), retries=1)], None, "free130")
    yield Config([T("A", g1(1, w=24)), T("B", g1(24), ["A"])], ["B"], "fan1-24")
    yield Config([T("A", g1(24)), T("B", g1(1, w=24), ["A"])], ["B"], "fan24-1")
    yield Config([T("A", g1(1, w=110)), T("B", g1(110), ["A"], retries=3)], ["B"], "fan1-110")
    yield Config([T("A", g1(1, w=24)), T("C", g1(1, off=23)), T("B", g1(24), ["A", "C"]), T("D", g1(1, w=24), ["B"])], ["D"], "fan1-24-1")
    yield Config([T("A", g1(1, w=14)), T("C", g1(3, off=11)), T("B", g1(14), ["A", "C"]), T("D", g1(14), ["B"])], ["D"], "fan1-14-14")
    yield Config([T("A", g1(1, w=60)), T("B", g1(60), ["A"]), T("C", g1(60, 1, 1, 0), ["B"])], ["C"], "fan1-60-60")
    yield Config(chain(8, 2), ["T7"], "chain8")
    yield Config(chain(20, 1), ["T19"], "chain20")
    yield Config(chain(4, 8, c0=1, c1=1, off=0), ["T3"], "chain4x8-ctx")
    yield Config([T("A", g1(3))] + [T(f"U{i}", g1(3), ["A"]) for i in range(6)], [f"U{i}" for i in range(6)], "star-out")
    yield Config([T(f"U{i}", g1(2)) for i in range(6)] + [T("Z", g1(2), [f"U{i}" for i in range(6)])], ["Z"], "star-in")
    yield Config([T("A", g1(6)), T("B", g1(6, 1, 1, 1), ["A"]), T("C", g1(3, w=2), ["A"]), T("D", g1(6), ["B", "C"])], ["D"],
                 "diamond6")
    yield Config([T("A", g2((3, 3), (0, 0), (1, 1), (0, 0))), T("B", g2((3, 3), (1, 1), (1, 1), (1, 1), conflict=True), ["A"])],
                 ["B"], "2d-stencil")
    # many blocks with two or three parents each
    yield Config([T("A", g1(30)), T("B", g1(30, 1, 1, 1), ["A"])], ["B"], "parents30")
    yield Config([T("A", g1(25)), T("C", g1(25)), T("B", g1(24, 0, 1, 1), ["A", "C"]), T("D", g1(24), ["B"])], ["D"], "parents25")
    for r in (3, 4, 7, 12):
        yield Config([T("A", g1(3), retries=r), T("B", g1(3), ["A"], retries=2)], ["B"], f"retries{r}")


def pair_universe(tier):
    """Upstream/downstream geometry pairs in 1-D (A fixed in place, B moved over it)."""
    fits = ("valid", "overhang", "shrink")
    q = tier == "quick"
    a_list = [
        (c0, w, c1, ta, fa, ca)
        for (c0, c1), w, ta, fa, ca in product(
            ((0, 0), (1, 0)) if q else ((0, 0), (1, 0), (0, 2)), (1, 2) if q else (1, 2, 3), (2, 5) if q else (1, 2, 4, 5), fits,
            (False,) if q else (False, True))
    ]
    b_list = [
        (c0, w, c1, tb, fb, cb, off)
        for (c0, c1), w, tb, fb, cb, off in product(
            ((0, 0), (2, 0), (0, 2), (1, 1)), (1, 2), (2, 3, 5), fits, (False, True), (-4, -1, 0, 2, 5) if q else range(-5, 7))
    ]
    for (c0, w, c1, ta, fa, ca), (d0, v, d1, tb, fb, cb, off) in product(a_list, b_list):
        a = Geo.make((0,), (ta + c0 + c1,), (c0,), (w,), (c1,), fa, ca)
        b = Geo.make((off,), (tb + d0 + d1,), (d0,), (v,), (d1,), fb, cb, (1,))
        yield a, b


def pair_universe_2d(tier):
    ax_a = [(0, 3, 0, 1, 0), (1, 4, 1, 2, 0), (0, 5, 0, 2, 1)]
    ax_b = [(0, 3, 0, 1, 0), (-2, 4, 1, 1, 1), (1, 5, 0, 2, 2), (3, 4, 2, 1, 0)]
    for a0, a1, b0, b1 in product(ax_a, ax_a, ax_b, ax_b):
        for fa, fb in (("valid", "shrink"), ("overhang", "valid"), ("shrink", "overhang")):
            A = Geo.make(*zip(a0, a1), fa, False)
            B = Geo.make(*zip(b0, b1), fb, (b0[1] % 2 == 0))
            yield A, B
