"""The distributed scenarios, which properties they are explored for, and to which depth."""

from .configs import g1
from .core import Job
from .sched import Config, TaskSpec as T

ALL_OUT = ["ok", "raise", "fail", "crash", "raise_unpicklable", "raise_nounpickle", "exit1", "baseexc", "created"]


def W(*tasks, **kw):
    kw.setdefault("workers", {t.tid: 1 for t in tasks})
    return dict(cfg=Config(list(tasks)).spec(), **kw)


RUN = ("C09", "C10", "C11", "C14", "C17")


# complete runs for the properties of the scheduler
CORE = {
    "C02": ("mask-conflict-raise", "conflict", "crowd", "dup-3", "steal-3", "kill", "faults-two"),
    "C03": ("mask-chain-fail", "chain", "three-tasks", "faults-chain", "kill-chain", "waiting"),
    "C04": ("mask-conflict-fail", "mask-chain-fail", "chain", "three-tasks", "faults-chain", "conflict", "kill-chain", "check-*"),
    "C05": ("faults", "faults-sched", "faults-chain", "always-fails", "kill-retry", "kill-slow"),
    "C06": ("mask-conflict-fail", "mask-chain-fail", "faults-chain", "kill-chain", "faults", "always-fails"),
    "C07": ("mask-chain-raise", "faults-chain", "kill-chain", "faults-sched", "check-*", "always-fails"),
    "C08": ("check-*",),
}


def worlds(tier):
    """(name, spec, deviations per class, total deviations, number of jobs, properties)"""
    out = []
    th = tier == "thorough"

    def add(name, spec, budget, total=None, parts=1, props=RUN, deep=None):
        if deep is not None and th:
            budget, total, parts = deep
        out.append((name, spec, budget, total, parts, props))

    two = W(T("A", g1(2)), workers={"A": 2})
    one = W(T("A", g1(2)))
    chain = W(T("A", g1(2)), T("B", g1(2), ["A"]))
    # message schedules
    add("one-worker", one, {"s": 2}, None, 8, ("C09", "C10", "C11", "C12"), deep=({"s": 2}, None, 8))
    add("two-workers", two, {"s": 1}, None, 2, RUN + ("C12", "C21"), deep=({"s": 2}, None, 32))
    add("spawn", dict(two, mode="spawn"), {"s": 1}, None, 2, ("C09", "C10", "C11", "C12"), deep=({"s": 2}, None, 32))
    add("chain", chain, {"s": 1}, None, 2, RUN, deep=({"s": 2}, None, 32))
    add("chain-spawn", dict(chain, mode="spawn"), {"s": 1}, None, 2, ("C11",), deep=({"s": 2}, None, 32))
    add("conflict", W(T("A", g1(3, 1, 1, 1, conflict=True)), workers={"A": 2}), {"s": 1}, None, 2, ("C10", "C11", "C17"))
    add("three-tasks", W(T("A", g1(1)), T("B", g1(1), ["A"]), T("C", g1(1), ["A"])), {"s": 1}, None, 4,
        ("C10", "C11", "C14", "C17"))
    # many workers, few blocks
    add("idle-workers", W(T("A", g1(1)), workers={"A": 3}), {"s": 1}, None, 2, ("C10", "C11", "C14"))
    # several tasks wait for a slow one (delayed requests)
    slow = W(T("A", g1(2)), T("B", g1(2), ["A"]), T("C", g1(2), ["A"]), workers={"A": 1, "B": 2, "C": 1}, duration={"A": 0.4})
    add("waiting", slow, {"s": 1}, None, 4, ("C10", "C11"), deep=({"s": 1}, None, 8))
    star = W(T("A", g1(1)), T("B", g1(1), ["A"]), T("C", g1(3)), workers={"A": 1, "B": 1, "C": 1}, mode="spawn",
             duration={"A": 1.0, "C": 0.4}, latency=True)
    add("starving", star, {"s": 1}, None, 4, ("C11",))
    # (one block of C and one of D can run at once, then their workers wait)
    two_wait = W(T("A", g1(1, off=1)), T("B", g1(1, off=1)), T("C", g1(2), ["A"]), T("D", g1(2), ["B"]), mode="spawn",
                 duration={"A": 6.0, "B": 0.5}, latency=True)
    add("two-tasks-wait", two_wait, {"s": 1}, None, 4, ("C11",))
    two_wait2 = W(T("A", g1(1, off=2)), T("B", g1(2, off=1)), T("C", g1(3), ["A"]), T("D", g1(3), ["B"]), mode="spawn",
                  workers={"A": 1, "B": 1, "C": 2, "D": 2}, duration={"A": 6.0, "B": 0.5}, latency=True)
    add("two-tasks-wait-2w", two_wait2, {}, None, 1, ("C11",), deep=({"s": 1}, None, 8))
    # what user code can do
    faults = W(T("A", g1(2), retries=1), workers={"A": 2}, outcomes=ALL_OUT)
    add("faults", faults, {"f": 2}, None, 4, RUN + ("C12", "C21"), deep=({"f": 3}, None, 16))
    add("faults-sched", dict(faults, outcomes=["ok", "raise", "fail", "crash"], workers={"A": 1}), {"f": 1, "s": 1}, None, 8,
        ("C09", "C10", "C12", "C14", "C17", "C21"), deep=({"f": 2, "s": 1}, None, 32))
    add("faults-two", dict(faults, outcomes=["ok", "raise", "fail", "crash"]), {"f": 1}, None, 1,
        ("C09", "C10", "C12", "C14", "C17", "C21"), deep=({"f": 1, "s": 1}, None, 32))
    add("faults-chain", W(T("A", g1(2), retries=1), T("B", g1(2), ["A"]), outcomes=["ok", "raise", "fail", "crash"]),
        {"f": 2}, None, 2, RUN + ("C12",), deep=({"f": 3}, None, 16))
    add("faults-spawn", dict(faults, mode="spawn"), {"f": 2}, None, 4, RUN + ("C12",))
    for n in (4, 5, 9) if th else (4, 5):
        add(f"always-raises-{n}", W(T("A", g1(n), retries=0), outcomes=["raise"]), {"s": 1}, None, 4,
            ("C10", "C12", "C14", "C17"))
    add("always-fails", W(T("A", g1(3), retries=2), outcomes=["fail"], workers={"A": 2}), {"s": 1}, None, 2, ("C10", "C17"))
    add("always-raises-2w", W(T("A", g1(4), retries=1), outcomes=["raise"], workers={"A": 2}), {"s": 1}, None, 4,
        ("C14",))
    add("always-raises-many", W(T("A", g1(7), retries=1), outcomes=["raise"], workers={"A": 2}, duration=[0.2, 0.5, 0.3]), {"s": 1},
        None, 4, ("C14",))
    # every set of blocks that fail for good
    for fate in ("fail", "raise"):
        m = dict(fate=fate, workers={"A": 2}, duration=[0.2, 0.5, 0.3, 0.9])
        add("mask-conflict-" + fate, W(T("A", g1(9, 1, 1, 1, conflict=True), retries=0), fates=[["A", [i]] for i in range(9)], **m), {"m": 1},
            None, 4, ("C10", "C11", "C14", "C17"))
        m["workers"] = {"A": 2, "B": 2, "C": 1}
        add("mask-chain-" + fate, W(T("A", g1(4), retries=0), T("B", g1(4), ["A"], retries=0), T("C", g1(2, w=2), ["A", "B"]),
                                    fates=[[t, [i]] for t in "AB" for i in range(4)], **m), {"m": 1}, None, 4,
            ("C10", "C11", "C14", "C17"))
    # worker processes dying at any point
    add("kill", dict(two, kills=1), {"k": 1}, None, 2, RUN + ("C21", "C12"), deep=({"k": 1, "s": 1}, None, 64))
    add("kill-one", dict(one, kills=1), {"k": 1, "s": 1}, None, 16, ("C09", "C10", "C14", "C21"))
    add("kill-retry", W(T("A", g1(1), retries=2), kills=2), {"k": 2}, None, 8, ("C09", "C10", "C14", "C21"),
        deep=({"k": 2}, None, 16))
    add("kill-chain", dict(chain, kills=1), {"k": 1}, None, 2, RUN + ("C21",), deep=({"k": 1, "s": 1}, None, 64))
    add("kill-waiting", dict(slow, kills=1), {"k": 1}, None, 2, ("C09", "C10", "C11", "C14", "C21"))
    add("kill-raises", W(T("A", g1(5)), outcomes=["raise"], kills=1, kill_after=4), {"k": 1, "s": 1}, None, 16, ("C10", "C14", "C09"))
    add("kill-slow", W(T("A", g1(2), retries=1), workers={"A": 2}, duration=0.6, kills=2), {"k": 1}, None, 2,
        ("C09", "C10", "C14", "C21"), deep=({"k": 2}, None, 32))
    # the worker that replaces a crashed one asks before the block of the latter was taken back
    rep = W(T("A", g1(1), retries=1), outcomes=["ok", "crash"])
    add("replacement", rep, {"f": 1, "s": 2}, None, 32, ("C10",))
    if th:
        add("replacement-kill", W(T("A", g1(1), retries=1), kills=1), {"k": 1, "s": 2}, None, 64, ("C10",))
    # the start function
    st = ["ok", "raise", "raise_unpicklable", "crash", "slow"]
    add("start", W(T("A", g1(2)), workers={"A": 2}, mode="spawn", start=st, nfault=2), {"f": 1, "s": 1}, None, 8,
        ("C10", "C14"), deep=({"f": 2, "s": 1}, None, 64))
    add("start-2", W(T("A", g1(1)), T("B", g1(1), ["A"]), mode="spawn", start=st, nfault=2), {"f": 2}, None, 2, ("C10", "C14"))
    # ways to die, several at once
    add("codes", W(T("A", g1(3), retries=1), workers={"A": 2}, duration=2.5, nfault=1,
                   outcomes=["ok"] + [f"crash {c}" for c in (1, 2, 130, 137, 255, -2, -6, -9, -11, -15)]), {"f": 1}, None, 2, ("C14", "C10"))
    add("codes-start", W(T("A", g1(1)), mode="spawn", start=["ok"] + [f"crash {c}" for c in (1, 127, 130, 255, -2, -9, -15)], nfault=1,
                         duration=3.0), {"f": 1}, None, 1, ("C14", "C10"))
    for n in (2, 3, 12):
        add(f"crash-at-once-{n}", W(T("A", g1(n)), T("B", g1(1)), workers={"A": n, "B": 1}, mode="spawn", start=["crash", "ok"], nfault=n,
                                    duration=8.0), {"f": 1}, None, 1, ("C14", "C10"))
    # stop requests
    add("stop", dict(two, stop=True), {"k": 1}, None, 1, ("C10", "C14", "C17"), deep=({"k": 1, "s": 1}, None, 32))
    add("stop-chain", dict(chain, stop=True, duration=0.3), {"k": 1}, None, 1, ("C10", "C14", "C17"),
        deep=({"k": 1, "s": 1}, None, 32))
    add("stop-long", W(T("A", g1(12)), T("B", g1(2)), stop=True, duration=0.6), {"k": 1}, None, 2, ("C10",))
    add("stop-spawn", W(T("A", g1(12)), mode="spawn", stop=True, duration=0.6), {"k": 1}, None, 2, ("C10",))
    # clients that outlive the worker that started them
    rem = W(T("A", g1(3)), workers={"A": 2}, mode="remote", duration=0.3)
    add("remote", rem, {"s": 1}, None, 2, ("C10", "C12"), deep=({"s": 2}, None, 32))
    add("remote-stop", dict(rem, stop=True), {"k": 1}, None, 1, ("C10", "C12"), deep=({"k": 1, "s": 1}, None, 32))
    add("remote-stop-2", W(T("A", g1(2)), workers={"A": 2}, mode="remote", duration=0.3, stop=True), {"k": 1, "s": 1}, None, 8,
        ("C10",))
    add("remote-error", W(T("A", g1(3)), T("B", g1(2), ["A"]), modes={"A": "remote", "B": "spawn"}, mode="spawn",
                          start=["ok", "raise"], duration=0.6), {"f": 1, "s": 1}, None, 4, ("C10", "C12"))
    add("remote-wait", W(T("A", g1(1, off=1)), T("B", g1(2), ["A"]), modes={"B": "remote"}, mode="spawn", stop=True,
                         duration={"A": 0.6}), {"k": 1}, None, 1, ("C10", "C12"))
    # where clients connect to
    for host in ("10.1.2.3", "node17.cluster"):
        add("host-" + host, dict(two, host=host, init=["ok"]), {"s": 1}, None, 2, ("C25",))
        add("host-remote-" + host, dict(rem, host=host), {}, None, 1, ("C25",))
    routed = W(T("A", g1(2)), T("B", g1(1), ["A"]), mode="spawn", route="10.0.0.5", init=["ok"])
    add("route", routed, {"n": 2}, None, 4, ("C25",))
    add("route-kill", dict(routed, kills=1), {"k": 1, "n": 1}, 1, 2, ("C25",), deep=({"k": 1, "n": 1}, None, 16))
    # crowds
    crowd = W(T("A", g1(4, 1, 1, 1, conflict=True)), workers={"A": 12}, mode="spawn", latency=True, duration=0.3)
    add("crowd", crowd, {}, None, 1, ("C10", "C11", "C14"), deep=({"s": 1}, None, 16))
    add("crowd-2", W(T("A", g1(1, off=1)), T("B", g1(3), ["A"]), T("C", g1(12)), workers={"A": 1, "B": 12, "C": 1}, mode="spawn",
                     latency=True, duration={"A": 1.5, "C": 0.8}), {}, None, 1, ("C10", "C11", "C14"))
    add("crowd-crash", W(T("A", g1(9), retries=1), workers={"A": 9}, outcomes=["crash", "ok"], nfault=9, duration=0.6),
        {"f": 1}, None, 1,
        ("C10", "C14", "C21"))
    # blocks that take long, workers that wait for them
    pat = dict(horizon=5000.0 if th else 1000.0, max_steps=1000000)
    add("patience", W(T("A", g1(1)), T("B", g1(2), ["A"]), workers={"A": 1, "B": 2}, duration={"A": 4000.0 if th else 700.0}, mode="spawn",
                      **pat), {}, None, 1,
        ("C09", "C10", "C11", "C12", "C21"))
    add("patience-fn", W(T("A", g1(3, 1, 1, 1, conflict=True), retries=1), workers={"A": 2}, duration=130.0, outcomes=["ok", "raise", "crash"],
                         nfault=1, **pat), {"f": 1}, None, 3, ("C09", "C10", "C11", "C12", "C21"))
    # observers that leave during a notification
    for meth in ("on_task_start", "on_acquire_block", "on_release_block", "on_task_done", "on_block_failure", "on_server_exit"):
        for first in (True, False):
            add(f"leave-{meth}-{first}", W(T("A", g1(2)), T("B", g1(1), ["A"]), outcomes=["ok", "raise"], leaver=[first, meth]),
                {"f": 1}, None, 1, ("C17",))
    # init callbacks
    three = (T("A", g1(2), retries=1), T("B", g1(2), ["A"]), T("C", g1(1, w=2), ["A", "B"]))
    I = ("C23",)
    add("init", W(*three, init=["ok"]), {"s": 1}, None, 4, I, deep=({"s": 2}, None, 32))
    add("init-2w", W(*three[:2], init=["ok"], workers={"A": 2, "B": 2}), {"s": 1}, None, 4, I, deep=({"s": 2}, None, 32))
    add("init-spawn", W(*three[:2], init=["ok"], mode="spawn"), {"s": 1}, None, 2, I, deep=({"s": 2}, None, 32))
    add("init-free", W(T("A", g1(1)), T("B", g1(1)), T("C", g1(2), ["B"]), init=["ok"]), {"s": 1}, None, 2, I)
    add("init-faults", W(*three, init=["ok"], outcomes=["ok", "raise", "fail", "crash"]), {"f": 2}, None, 4, I, deep=({"f": 3}, None, 16))
    add("init-raises", W(*three[:2], T("D", g1(1)), init=["ok", "raise"]), {"f": 1, "s": 1}, None, 8, I)
    add("init-raises-faults", W(*three[:2], init=["ok", "raise"], outcomes=["ok", "fail"]), {"f": 2}, None, 2, I)
    add("init-kill", W(*three[:2], init=["ok"], kills=1), {"k": 1}, None, 2, I, deep=({"k": 1, "s": 1}, None, 64))
    add("init-stop", W(*three[:2], init=["ok"], stop=True), {"k": 1}, None, 2, I, deep=({"k": 1, "s": 1}, None, 64))
    for mask in range(1, 16):
        done = [k for i, k in enumerate([("A", [0]), ("A", [1]), ("B", [0]), ("B", [1])]) if mask >> i & 1]
        add(f"init-check-{mask}", W(T("A", g1(2), check=True), T("B", g1(2), ["A"], check=True), T("C", g1(1), ["B"]), done=done, init=["ok"]),
            {}, None, 1, I, deep=({"s": 1}, None, 2))
    # check functions
    keys = [("A", [0]), ("A", [1]), ("B", [0]), ("B", [1])]
    for mask in range(1, 16):
        done = [k for i, k in enumerate(keys) if mask >> i & 1]
        ck = W(T("A", g1(2), check=True), T("B", g1(2), ["A"], check=True), done=done)
        add(f"check-{mask}", ck, {}, None, 1, ("C17", "C10"), deep=({"s": 1}, None, 2))
    add("check-all", W(T("A", g1(2), check=True), T("B", g1(1), ["A"]), done=[("A", [0]), ("A", [1])], workers={"A": 2, "B": 1}),
        {"s": 1}, None, 2, ("C10", "C11", "C17"))
    # misbehaving workers
    for m in ("dup", "steal", "late", "greedy", "leave"):
        add(m, W(T("A", g1(2), retries=1), workers={"A": 2}, mode=m), {"s": 1}, None, 2,
            ("C11",) if m == "greedy" else ("C09", "C10", "C21"), deep=({"s": 2}, None, 32))
        if m in ("dup", "steal", "late"):
            add(m + "-3", W(T("A", g1(3, 1, 1, 1, conflict=True), retries=1), T("B", g1(1), ["A"]), workers={"A": 2, "B": 1}, mode=m,
                        modes={"B": "spawn"}), {"s": 1}, None, 4, ("C09",))
    return out


def jobs(prop, tier):
    core = CORE.get(prop, ())
    for name, spec, budget, total, parts, props in worlds(tier):
        if prop not in props and name not in core and not (name.startswith("check-") and "check-*" in core):
            continue
        for k in range(parts):
            yield Job("mc.world:explore", spec, budget, total, (k, parts), [prop], name, cpu=3000, wall=4000,
                      label=f"{name} {budget} {k}/{parts}", hang_props=(prop,))


def wire_worlds(tier):
    C = lambda send, **k: dict(send=send, **k)
    th = tier == "thorough"
    out = []

    def add(name, spec, budget, parts, deep=None):
        if th and deep:
            budget, parts = deep
        out.append((name, spec, budget, parts))

    add("plain", dict(clients=[C([0, 5])], reply=[3]), {"s": 1}, 1, ({"s": 2}, 16))
    for ch, cap in ((1, 1), (3, 7), (2, None)) if not th else ((1, 1), (1, 5), (2, 3), (3, 7), (4, 4), (5, 2), (2, None)):
        add(f"frag-{ch}-{cap}", dict(clients=[C([0, 5])], reply=[3], frag=dict(chunk=ch, capacity=cap)), {"s": 1}, 4)
    add("big", dict(clients=[C([70000, 1, 300000])], reply=[100000], frag=dict(chunk=40000, capacity=65536)), {"s": 1}, 2)
    # sizes around every power of two from 2**7 to 2**24: where a length field, a buffer or a limit would end
    around = [2 ** k - 120 + d for k in range(8, 18) for d in (0, 60, 121)]
    add("sizes", dict(clients=[C(around)], reply=[130]), {}, 1)
    add("huge", dict(clients=[C([2 ** 20 + 1, 1, 2 ** 24 + 10])], reply=[2 ** 20 - 1]), {}, 1)
    # above tornado's limit for buffers
    for i, (n, r) in enumerate(((100 * 2 ** 20 - 200, 5), (100 * 2 ** 20, 5), (2 ** 27 + 5, 3), (3, 2 ** 27 - 150)) + ((2 ** 28, 3), (2 ** 29 + 1, 1)) * th):
        add(f"vast-{i}", dict(clients=[C([5, n, 7])], reply=[r], fine=False), {}, 1)
    add("threads", dict(clients=[C([1, 2, 3], threads=2), C([4])], reply=[3]), {"s": 1}, 4, ({"s": 2}, 32))
    add("threads-frag", dict(clients=[C([1, 2, 3, 4], threads=2)], frag=dict(chunk=3, capacity=7)), {"s": 1}, 4)
    add("three-clients", dict(clients=[C([1]), C([2]), C([3])], reply=[1, 2]), {"s": 1}, 2)
    add("client-dies", dict(clients=[C([1, 2], end="stay"), C([4])], reply=[3, 1], kill="client"), {"k": 1}, 1,
        ({"k": 1, "s": 1}, 32))
    add("client-dies-frag", dict(clients=[C([1, 2], end="stay"), C([4])], reply=[3, 1], kill="client",
        frag=dict(chunk=3, capacity=7)), {"k": 1}, 4)
    add("server-dies", dict(clients=[C([1, 2]), C([4])], reply=[3, 1], kill="server"), {"k": 1}, 1, ({"k": 1, "s": 1}, 32))
    add("server-dies-frag", dict(clients=[C([1, 2]), C([4])], reply=[3, 1], kill="server", frag=dict(chunk=3, capacity=7)),
        {"k": 1}, 4)
    add("server-closes", dict(clients=[C([1, 2]), C([4])], reply=[3, 1], close="server"), {"s": 1}, 4, ({"s": 2}, 64))
    add("client-exits", dict(clients=[C([1, 2], end="exit"), C([4], end="stay")], reply=[3]), {"s": 1}, 4)
    return out


def wire_jobs(tier):
    for name, spec, budget, parts in wire_worlds(tier):
        for k in range(parts):
            yield Job("mc.wire:explore", spec, budget, None, (k, parts), name, cpu=3000, wall=4000,
                      label=f"{name} {budget} {k}/{parts}", hang_props=("C13",))
