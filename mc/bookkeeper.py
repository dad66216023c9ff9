"""C21 on the bookkeeper itself: all sequences of hand-outs, returns, closing connections, waiting and collecting lost
blocks, compared with a model; and the timeout of a task during a run."""

import types

from . import simnet
from .core import Result, Violation


class Stream:
    def __init__(self, name):
        self.name, self.is_closed = name, False

    def closed(self):
        return self.is_closed

    def __repr__(self):
        return self.name


def ops_of(nb, ns):
    ops = [("lost",), ("wait", 0.6), ("wait", 1.2)]
    for b in range(nb):
        for s in range(ns):
            ops.append(("send", b, s))
            ops.append(("return", b, s))
    for s in range(ns):
        ops.append(("close", s))
    return ops


def run_seq(seq, nb, ns, timeout, blocks):
    """-> (violations, number of operations executed, possible)"""
    from daisy.block_bookkeeper import BlockBookkeeper

    clock = types.SimpleNamespace(now=5000.0, proc=None)
    simnet.ENG = clock
    viol = []
    try:
        bk = BlockBookkeeper(timeout) if timeout is not None else BlockBookkeeper()
        streams = [Stream(f"s{i}") for i in range(ns)]
        sent = {}
        for i, op in enumerate(seq):
            clock.now += 0.001
            k = op[0]
            if k == "wait":
                clock.now += op[1]
            elif k == "close":
                if streams[op[1]].is_closed:
                    return viol, i, False
                streams[op[1]].is_closed = True
            elif k == "send":
                if op[1] in sent:
                    return viol, i, False
                bk.notify_block_sent(blocks[op[1]], streams[op[2]])
                sent[op[1]] = (op[2], clock.now)
            elif k == "return":
                valid = bool(bk.is_valid_return(blocks[op[1]], streams[op[2]]))
                want = op[1] in sent and sent[op[1]][0] == op[2]
                if valid != want:
                    viol.append(f"return of block {op[1]} by {streams[op[2]]} is {'accepted' if valid else 'refused'}")
                    return viol, i, True
                if valid:
                    bk.notify_block_returned(blocks[op[1]], streams[op[2]])
                    del sent[op[1]]
            else:
                got = sorted(blocks.index(b) for b in bk.get_lost_blocks())
                want = sorted(b for b, (s, t) in sent.items()
                              if streams[s].is_closed or (timeout is not None and clock.now - t > timeout))
                if got != want:
                    viol.append(f"lost blocks {got}, should be {want}")
                    return viol, i, True
                for b in want:
                    del sent[b]
    except Exception as e:
        viol.append(f"raises {e!r}")
    finally:
        simnet.ENG = None
    return viol, len(seq), True


def sequences(depth, nb, ns, timeout, part):
    import daisy

    simnet.install()
    import daisy  # noqa: F811

    R = daisy.Roi
    blocks = [daisy.Block(R((0,), (20,)), R((i,), (3,)), R((i + 1,), (1,)), task_id="A") for i in range(nb)]
    ops = ops_of(nb, ns)
    res = Result()
    k, n = part

    def rec(seq, depth):
        viol, done, possible = run_seq(seq, nb, ns, timeout, blocks)
        if not possible:
            return
        res.executions += 1
        res.validated += 1
        res.transitions += len(seq)
        if viol:
            res.violations.append(Violation(("C21", "C09"), f"timeout {timeout}: {viol[0]} after {seq}",
                                            replay={"func": "mc.bookkeeper:replay", "args": [seq, nb, ns, timeout]}))
            return
        if depth == 0 or len(res.violations) > 3:
            return
        for i, op in enumerate(ops):
            if len(seq) == 0 and i % n != k:
                continue
            rec(seq + [op], depth - 1)

    rec([], depth)
    res.states = res.executions
    res.outcome(f"timeout {timeout}, {nb} blocks, {ns} streams", res.executions)
    return res


def replay(seq, nb, ns, timeout):
    simnet.install()
    import daisy

    R = daisy.Roi
    blocks = [daisy.Block(R((0,), (20,)), R((i,), (3,)), R((i + 1,), (1,)), task_id="A") for i in range(nb)]
    res = Result()
    for v in run_seq([tuple(o) for o in seq], nb, ns, timeout, blocks)[0]:
        res.violations.append(Violation(("C21", "C09"), v, trace=[str(o) for o in seq]))
    return res


def task_timeout():
    """A block that takes longer than its task's timeout: it has to be taken back."""
    from . import world
    from .configs import g1
    from .sched import TaskSpec as T
    from .worlds import W

    simnet.install()
    res = Result()
    for n in (1, 2):
        # the worker hangs for 20 s; the timeout is 2 s
        spec = W(T("A", g1(1), retries=0), workers={"A": n}, duration=20.0, extra={"A": {"timeout": 2}}, overdue={"A": 2.0},
                 horizon=60.0)
        r = world.run_world(spec, (), trace=True)
        res.executions += 1
        res.validated += 1
        res.transitions += r.steps
        took = [x for x in r.log if "takes back" in x]
        early = [x for x in took if float(x.split()[0]) < 10.0]
        res.outcome("taken back in time" if early else "not taken back")
        if not early:
            res.violations.append(Violation(
                ("C21",), f"a block processed for 20 s is not taken back although the task's timeout is 2 s ({n} workers)",
                key="task-timeout", trace=r.log, replay={"func": "mc.bookkeeper:task_timeout", "args": []}))
        for pr, what in r.violations:
            res.violations.append(Violation(pr, what, trace=r.log, replay={"func": "mc.bookkeeper:task_timeout", "args": []}))
    return res
