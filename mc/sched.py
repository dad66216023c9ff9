"""Scheduler engine: C02-C08 (and, through the serial server, C15).

The real ``Scheduler`` is driven through every sequence of acquire/release operations (and every answer of the check
functions) of small task graphs, and compared after every operation with a reference model.
"""

import numpy as np
import collections
import enum
import itertools
import sys
import traceback
import types

from .core import Result, Violation
from .geometry import Bad, expect, make_graph, make_task, rw
from .model import Geo, overlap

WAIT, READY, OUT, DONE, FAILED, ORPHAN = "wait", "ready", "out", "done", "failed", "orphan"


class TaskSpec:
    def __init__(self, tid, geo, ups=(), retries=0, check=False):
        self.tid, self.geo, self.ups, self.retries, self.check = tid, geo, tuple(ups), retries, check

    def spec(self):
        return [self.tid, self.geo.spec(), list(self.ups), self.retries, self.check]

    @staticmethod
    def from_spec(s):
        return TaskSpec(s[0], Geo(*s[1]), s[2], s[3], s[4])


class Config:
    """A task graph; ``give`` lists the tasks passed to the scheduler (default: all)."""

    def __init__(self, tasks, give=None, name=""):
        self.tasks = tasks
        self.give = list(give) if give is not None else [t.tid for t in tasks]
        self.name = name

    def spec(self):
        return {"tasks": [t.spec() for t in self.tasks], "give": self.give, "name": self.name}

    @staticmethod
    def from_spec(s):
        return Config([TaskSpec.from_spec(t) for t in s["tasks"]], s["give"], s.get("name", ""))

    def __repr__(self):
        return f"{self.name}: " + "; ".join(
            f"{t.tid}{'<-' + ','.join(t.ups) if t.ups else ''} {t.geo} retries={t.retries}{' check' if t.check else ''}"
            for t in self.tasks
        )

    def build(self, check=None, process=None, extra=None):
        """The real tasks, {id: Task}; process: one function for all tasks or {id: function}."""
        out = {}
        for t in self.tasks:
            kw = {}
            if t.check and check is not None:
                kw["check_function"] = check
            out[t.tid] = make_task(
                t.geo, t.tid, [out[u] for u in t.ups], process=process.get(t.tid) if isinstance(process, dict) else process,
                max_retries=t.retries, **kw, **((extra or {}).get(t.tid, {}))
            )
        return out


class Static:
    """Blocks and dependencies of a configuration (computed once)."""

    def __init__(self, cfg):
        from daisy import DependencyGraph

        self.cfg = cfg
        self.task_ids = [t.tid for t in cfg.tasks]
        self.spec = {t.tid: t for t in cfg.tasks}
        self.blocks = {}
        for t in cfg.tasks:
            for idx, (r, w) in t.geo.blocks().items():
                self.blocks[(t.tid, idx)] = (r, w)
        self.keys = list(self.blocks)
        self.key_of = {(tid, w): (tid, idx) for (tid, idx), (r, w) in self.blocks.items()}
        self.deps = {k: set() for k in self.keys}
        self.producers = {k: set() for k in self.keys}
        for k in self.keys:
            tid = k[0]
            for u in self.spec[tid].ups:
                for j in self.keys:
                    if j[0] == u and overlap(self.blocks[j][1], self.blocks[k][0]):
                        self.deps[k].add(j)
                        self.producers[k].add(j)
        # order within a task: as reported by the dependency graph (checked on its own under C20)
        tasks = cfg.build()
        dg = DependencyGraph([tasks[t] for t in cfg.give])
        for t in cfg.tasks:
            if not t.geo.conflict:
                continue
            for b, _ in make_graph(t.geo, t.tid).enumerate_all_dependencies():
                k = self.key(b)
                for u in dg.upstream(b):
                    if u.task_id == t.tid:
                        self.deps[k].add(self.key(u))
        self.rdeps = {k: [j for j in self.keys if k in self.deps[j]] for k in self.keys}
        self.conflicts = {}
        for t in cfg.tasks:
            if t.geo.conflict:
                ks = [k for k in self.keys if k[0] == t.tid]
                for a, b in itertools.combinations(ks, 2):
                    (ra, wa), (rb, wb) = self.blocks[a], self.blocks[b]
                    if overlap(ra, wb) or overlap(rb, wa):
                        self.conflicts.setdefault(a, set()).add(b)
                        self.conflicts.setdefault(b, set()).add(a)
        self.total = collections.Counter(k[0] for k in self.keys)
        self.max_ops = 40 + 4 * sum(self.spec[k[0]].retries + 1 for k in self.keys)

    def key(self, block):
        r, w = rw(block)
        k = self.key_of.get((block.task_id, w))
        if k is None or self.blocks[k] != (r, w):
            raise Bad(("C01", "C22"), f"{block} is not a block of the task")
        return k


class Model:
    def __init__(self, st):
        self.st = st
        self.status = {k: (READY if not st.deps[k] else WAIT) for k in st.keys}
        self.tries = {k: 0 for k in st.keys}
        self.skipped = set()
        self.acquired = collections.Counter()

    def key(self):
        return (
            tuple(self.status[k] for k in self.st.keys),
            tuple(self.tries[k] for k in self.st.keys),
            tuple(k in self.skipped for k in self.st.keys),
        )

    def ready(self, tid):
        return [k for k in self.st.keys if k[0] == tid and self.status[k] == READY]

    def out(self):
        return [k for k in self.st.keys if self.status[k] == OUT]

    def success(self, k):
        self.status[k] = DONE
        for d in self.st.rdeps[k]:
            if self.status[d] == WAIT and all(self.status[u] == DONE for u in self.st.deps[d]):
                self.status[d] = READY

    def failure(self, k):
        self.tries[k] += 1
        if self.tries[k] <= self.st.spec[k[0]].retries:
            self.status[k] = READY
            return
        self.status[k] = FAILED
        stack = [k]
        while stack:
            for d in self.st.rdeps[stack.pop()]:
                if self.status[d] == WAIT:
                    self.status[d] = ORPHAN
                    stack.append(d)

    def counts(self, tid):
        c = collections.Counter(self.status[k] for k in self.st.keys if k[0] == tid)
        return {
            "ready_count": c[READY],
            "processing_count": c[OUT],
            "completed_count": c[DONE],
            "skipped_count": sum(1 for k in self.skipped if k[0] == tid),
            "failed_count": c[FAILED],
            "orphaned_count": c[ORPHAN],
            "pending_count": c[WAIT],
            "total_block_count": self.st.total[tid],
        }

    def done(self, tid):
        return all(self.status[k] in (DONE, FAILED, ORPHAN) for k in self.st.keys if k[0] == tid)

    def any_failure(self):
        return any(s in (FAILED, ORPHAN) for s in self.status.values()) or any(self.tries.values())


COUNTER_PROPS = {
    "ready_count": ("C04", "C07"),
    "processing_count": ("C07",),
    "completed_count": ("C07",),
    "skipped_count": ("C07", "C08"),
    "failed_count": ("C05", "C07"),
    "orphaned_count": ("C06", "C07"),
    "pending_count": ("C07",),
    "total_block_count": ("C01", "C07"),
}


def snap(o, seen=None, depth=0):
    """Generic canonical snapshot of an object graph (for state matching)."""
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return o
    if isinstance(o, enum.Enum):
        return o.name
    tn = type(o).__name__
    if tn in ("Roi", "Coordinate", "int64", "bool_", "bool"):
        return repr(o)
    if tn == "Block":
        return ("B", o.block_id, o.status.name)
    if tn == "Task":
        return ("T", o.task_id)
    if seen is None:
        seen = set()
    if id(o) in seen or depth > 12:
        return ("ref", tn)
    seen.add(id(o))
    try:
        if isinstance(o, dict):
            items = [(repr(snap(k, seen, depth + 1)), snap(v, seen, depth + 1)) for k, v in o.items()]
            items.sort(key=lambda kv: kv[0])
            return ("D", tuple(items))
        if isinstance(o, (list, tuple, collections.deque)):
            return ("L", tuple(snap(x, seen, depth + 1) for x in o))
        if isinstance(o, (set, frozenset)):
            return ("S", tuple(sorted(repr(snap(x, seen, depth + 1)) for x in o)))
        if isinstance(o, types.GeneratorType):
            if o.gi_frame is None:
                return ("G", "finished")
            loc = tuple(sorted((k, repr(snap(v, seen, depth + 1))) for k, v in o.gi_frame.f_locals.items() if k != "self"))
            return ("G", o.gi_frame.f_lasti, loc)
        if isinstance(o, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type)):
            return ("F", getattr(o, "__qualname__", tn))
        d = getattr(o, "__dict__", None)
        if d is not None:
            return ("O", tn, snap(d, seen, depth + 1))
        return ("?", tn)
    finally:
        seen.discard(id(o))


TRUE = (True, np.True_, 1, "done")
FALSE = (False, np.False_, 0, None)


class CheckError(Exception):
    pass


class Run:
    """One real scheduler next to the reference model."""

    def __init__(self, st, viol, scheduler_kw=None):
        from daisy import Scheduler

        self.st = st
        self.viol = viol  # list collecting (props, what)
        self.model = Model(st)
        self.answers = []
        self.calls = []
        self.real = {}
        self.dead = False
        self.log = []
        self.ids = {}
        tasks = st.cfg.build(check=self.check)
        try:
            self.s = Scheduler([tasks[t] for t in st.cfg.give], **(scheduler_kw or {}))
        except Exception as e:
            self.crash(e, "Scheduler()")
            return
        self.compare("initially")

    def bad(self, props, what):
        self.viol.append((tuple(props), what, list(self.log)))

    def crash(self, e, op):
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        props = {"C04", "C07"}
        if self.model.any_failure() or "FAILED" in op:
            props |= {"C05", "C06"}
        if self.model.skipped or self.calls:
            props |= {"C08"}
        if isinstance(e, Bad):
            props |= set(e.props)
            self.bad(props, f"{op}: {e.what}")
        else:
            self.bad(props, f"{op} raises {e!r} at {where.filename}:{where.lineno}")
        self.dead = True

    # environment -------------------------------------------------------------------------------------------
    def check(self, block):
        n = len(self.calls)
        a = self.answers[n] if n < len(self.answers) else "F"
        self.calls.append((block, a))
        if n > 4 * len(self.st.keys) + 20:
            raise RuntimeError("endless check")
        if a == "E":
            raise CheckError("check function fails")
        # (users return all kinds of truth values)
        kind = sum(map(sum, (block.write_roi.offset, block.write_roi.shape))) % 4
        return (TRUE if a == "T" else FALSE)[kind]

    # operations --------------------------------------------------------------------------------------------
    def acquire(self, tid, answers=()):
        self.answers, self.calls = list(answers), []
        self.log.append(f"acquire({tid}{', check: ' + ''.join(answers) if answers else ''})")
        m, st = self.model, self.st
        try:
            block = self.s.acquire_block(tid)
        except Exception as e:
            return self.crash(e, f"acquire_block({tid})")
        try:
            # what the check function said
            skipped_now = False
            for b, a in self.calls:
                k = st.key(b)
                if k[0] != tid:
                    self.bad(("C08",), f"check function of another task asked: {b}")
                if m.status[k] != READY:
                    self.bad(("C08",), f"check function asked for {k}, which is {m.status[k]}")
                if a == "T":
                    skipped_now = True
                    m.skipped.add(k)
                    m.success(k)
            last = {st.key(b): a for b, a in self.calls}
            if block is None:
                self.log[-1] += " -> None"
                left = m.ready(tid)
                if left:
                    props = {"C04"}
                    if any(m.tries[k] for k in left):
                        props.add("C05")
                    if m.any_failure():
                        props.add("C06")
                    if m.skipped:
                        props.add("C08")
                    self.bad(props, f"acquire_block({tid}) gives no block although {left} may run")
            else:
                k = st.key(block)
                self.log[-1] += f" -> {k[1]}"
                if block.task_id != tid:
                    self.bad(("C04",), f"acquire_block({tid}) returned a block of {block.task_id}")
                self.judge_handout(k, last)
                if self.ids.setdefault(k, block.block_id) != block.block_id:
                    self.bad(("C05", "C22"), f"{k} handed out again with ID {block.block_id} instead of {self.ids[k]}")
                m.status[k] = OUT
                m.acquired[k] += 1
                self.real[k] = block
        except Bad as e:
            return self.crash(e, f"acquire_block({tid})")
        self.compare(self.log[-1])

    def judge_handout(self, k, last):
        m, st = self.model, self.st
        s = m.status[k]
        if s == OUT:
            self.bad(("C02", "C04"), f"{k} handed out again while outstanding")
        elif s == DONE:
            self.bad(("C04", "C08") if k in m.skipped else ("C04",), f"{k} handed out although it is completed")
        elif s == FAILED:
            self.bad(("C05",), f"{k} handed out again after {m.tries[k]} failures with max_retries={st.spec[k[0]].retries}")
        elif s == ORPHAN:
            self.bad(("C06",), f"orphan {k} handed out")
        elif s == WAIT:
            self.bad(("C04",), f"{k} handed out before its dependencies are done")
        for p in st.producers[k]:
            if m.status[p] != DONE:
                self.bad(("C03",), f"{k} handed out although {p}, which it reads from, is {m.status[p]}")
        for o in st.conflicts.get(k, ()):
            if m.status[o] == OUT:
                self.bad(("C02",), f"{k} handed out while conflicting block {o} is outstanding")
        if st.spec[k[0]].check and last.get(k) not in ("F", "E"):
            self.bad(("C08",), f"{k} handed out although the check function answered {last.get(k)}")

    def release(self, k, ok):
        from daisy import BlockStatus

        self.answers, self.calls = [], []
        b = self.real.pop(k)
        b.status = BlockStatus.SUCCESS if ok else BlockStatus.FAILED
        self.log.append(f"release({k[0]}, {k[1]}, {'SUCCESS' if ok else 'FAILED'})")
        try:
            self.s.release_block(b)
        except Exception as e:
            return self.crash(e, self.log[-1])
        if ok:
            self.model.success(k)
        else:
            self.model.failure(k)
        self.compare(self.log[-1])

    def compare(self, op):
        m = self.model
        try:
            for tid in self.st.task_ids:
                ts = self.s.task_states[tid]
                want = m.counts(tid)
                for f, v in want.items():
                    got = int(getattr(ts, f))
                    if got != v:
                        props = set(COUNTER_PROPS[f])
                        if m.any_failure():
                            props |= {"C06"} if f in ("ready_count", "pending_count", "orphaned_count") else set()
                            props |= {"C05"} if f in ("ready_count", "failed_count", "completed_count") else set()
                        if m.skipped and f in ("ready_count", "completed_count", "skipped_count"):
                            props.add("C08")
                        self.bad(props, f"after {op}: {f} of {tid} is {got}, should be {v}")
                if bool(ts.is_done()) != m.done(tid):
                    self.bad(("C07", "C06") if m.any_failure() else ("C07",),
                             f"after {op}: is_done of {tid} is {ts.is_done()}, should be {m.done(tid)}")
            rt = sorted(t.task_id for t in self.s.get_ready_tasks())
            want = sorted(t for t in self.st.task_ids if m.ready(t))
            if rt != want:
                self.bad(("C04", "C07"), f"after {op}: ready tasks {rt}, should be {want}")
        except Exception as e:
            self.crash(e, "reading task states after " + op)

    def apply(self, op):
        if op[0] == "acq":
            self.acquire(op[1], op[2])
        else:
            self.release(op[1], op[2])

    def quiescent(self):
        return not self.model.out() and not any(self.model.ready(t) for t in self.st.task_ids)

    def key(self):
        return hash((self.model.key(), repr(snap(self.s))))


def answer_lists(run_replay, tid):
    """All check answer sequences for one acquire: T^k F, T^k E and T^n (nothing left)."""
    k = 0
    while True:
        r = run_replay()
        r.acquire(tid, ["T"] * k)
        used = len(r.calls)
        yield ("T",) * k, used
        if used <= k:
            return
        yield ("T",) * k + ("E",), used
        k += 1
        if k > 50:
            return


def enabled(run, fail=True, max_out=None):
    ops = []
    m = run.model
    out = m.out()
    for k in out:
        if k in run.real:
            ops.append(("rel", k, True))
            if fail:
                ops.append(("rel", k, False))
    if max_out is None or len(out) < max_out:
        for tid in run.st.task_ids:
            ops.append(("acq", tid, ()))
    return ops


def explore(cfg_spec, fail=True, max_out=None, max_states=200000, props=None, check_exc=True):
    """Explicit-state search of one configuration.  ``props``: stop as soon as one of these is violated."""
    cfg = Config.from_spec(cfg_spec)
    res = Result()
    try:
        st = Static(cfg)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.violations.append(Violation(("C01", "C03", "C04", "C20"),
                                        f"{cfg}: cannot enumerate blocks: {e!r} {getattr(e, 'what', '')} at {tb.filename}:{tb.lineno}"))
        return res
    seen = set()
    terminal = collections.Counter()
    reported = set()
    has_check = any(t.check for t in cfg.tasks)
    sys.setrecursionlimit(20000)

    def report(viol, hist):
        new = False
        for p, what, log in viol:
            kk = (p, what.split(":")[0][:40])
            if kk in reported:
                continue
            reported.add(kk)
            new = True
            res.violations.append(Violation(
                p, f"{what} [{cfg}]", trace=log,
                replay={"func": "mc.sched:replay", "args": [cfg_spec, [list(o) for o in hist]]}))
        return new

    def replay(hist):
        viol = []
        r = Run(st, viol)
        for op in hist:
            if r.dead:
                break
            r.apply(op)
        return r, viol

    def stop():
        return props is not None and any(set(v.props) & set(props) for v in res.violations)

    r, viol = replay([])
    report(viol, [])
    stack = [[]]
    first = r
    while stack:
        hist = stack.pop()
        if first is not None:
            run, viol, first = first, [], None
        else:
            run, viol = replay(hist)
            report(viol, hist)
            res.executions += 1
        # follow one path without replaying, pushing the alternatives
        while True:
            if stop() or run.dead:
                break
            k = run.key()
            if k in seen:
                break
            seen.add(k)
            if len(seen) >= max_states:
                res.capped.append(f"{max_states} states in {cfg.name}")
                stack.clear()
                break
            if run.quiescent():
                terminal[run.model.key()[0]] += 1
            if len(hist) > st.max_ops:
                report([(("C04", "C05"), f"no end after {len(hist)} operations", run.log)], hist)
                break
            ops = enabled(run, fail, max_out)
            if has_check:
                more = []
                for op in ops:
                    if op[0] == "acq" and st.spec[op[1]].check and run.model.ready(op[1]):
                        for ans, used in answer_lists(lambda: replay(hist)[0], op[1]):
                            if ans and (check_exc or "E" not in ans):
                                more.append(("acq", op[1], ans))
                ops += more
            if not ops:
                break
            res.transitions += len(ops)
            for op in ops[1:]:
                stack.append(hist + [op])
            op = ops[0]
            n0 = len(viol)
            run.apply(op)
            hist = hist + [op]
            report(viol[n0:], hist)
        if stop():
            break
    res.states = len(seen)
    res.validated = res.executions + 1
    for s, n in terminal.items():
        res.outcome(f"{cfg.name}:" + ",".join(x[0] for x in s), n)
    res.sample(f"{cfg}: {len(seen)} states, {res.transitions} transitions, {len(terminal)} terminal states", 1)
    return res


def tup(o):
    return tuple(tup(x) for x in o) if isinstance(o, (list, tuple)) else o


def replay(cfg_spec, hist):
    st = Static(Config.from_spec(cfg_spec))
    viol = []
    r = Run(st, viol)
    for op in hist:
        if r.dead:
            break
        r.apply(tup(op))
    res = Result()
    for p, what, log in viol:
        res.violations.append(Violation(p, what, trace=log))
    return res


# ---------------------------------------------------------------------------------------------------------------
# systematic schedules over many geometries


POLICIES = ("up-first", "down-first", "wide", "wide-rev")


def policy_run(st, policy, fail_keys, res, viol):
    """One complete run: which task first, how many outstanding, which blocks always fail."""
    run = Run(st, viol)
    ids = st.task_ids if policy in ("up-first", "wide") else list(reversed(st.task_ids))
    n = 0
    while not run.dead:
        n += 1
        if n > st.max_ops * 2:
            run.bad(("C04", "C05", "C06"), "the run does not end")
            break
        res.transitions += 1
        if policy in ("wide", "wide-rev"):
            # hand out everything available, then return the oldest / youngest one
            got = False
            for t in ids:
                while run.model.ready(t) and not run.dead:
                    before = len(run.model.ready(t))
                    run.acquire(t)
                    got = True
                    if len(run.model.ready(t)) >= before:
                        break
            if run.dead:
                break
            out = [k for k in run.real]
            if not out:
                if not got:
                    break
                continue
            k = out[0] if policy == "wide" else out[-1]
            run.release(k, k not in fail_keys)
        else:
            t = next((t for t in ids if run.model.ready(t)), None)
            if t is None:
                # nothing available in the model: the real one must agree
                for t in ids:
                    run.acquire(t)
                if not run.real:
                    break
            else:
                run.acquire(t)
            if run.dead or not run.real:
                break
            k = next(iter(run.real))
            run.release(k, k not in fail_keys)
    return run


def hold_run(st, hold, res, viol):
    """One complete run of the scheduler alone, which holds one block as long as anything else can be done.  Since nothing but
    failures takes the readiness of a block away, the runs that hold one block each bring any two blocks together that any
    run without failures could."""
    from daisy import Scheduler, BlockStatus

    tasks = st.cfg.build()
    out, done, log = {}, set(), []
    try:
        s = Scheduler([tasks[t] for t in st.cfg.give])
        for _ in range(st.max_ops):
            for t in st.task_ids:
                while len(out) + len(done) <= len(st.keys):
                    block = s.acquire_block(t)
                    res.transitions += 1
                    if block is None:
                        break
                    k = st.key(block)
                    log.append(f"acquire({t}) -> {k[1]}")
                    for o in st.conflicts.get(k, ()):
                        if o in out:
                            viol.append((("C02",), f"{k} handed out while conflicting block {o} is outstanding", list(log)))
                    for p in st.producers[k]:
                        if p not in done:
                            viol.append((("C03",), f"{k} handed out although {p}, which it reads from, is not done", list(log)))
                    if k in out:
                        viol.append((("C02",), f"{k} handed out again while outstanding", list(log)))
                    out[k] = block
            if viol or not out:
                return
            k = next(iter(out))
            if k == hold and len(out) > 1:
                k = next(x for x in out if x != hold)
            b = out.pop(k)
            done.add(k)
            b.status = BlockStatus.SUCCESS
            log.append(f"release({k[0]}, {k[1]}, SUCCESS)")
            s.release_block(b)
            res.transitions += 1
    except Exception:  # (not what is decided here)
        return


def sweep_cfg(cfg, res, props, policies=POLICIES, singles=True, many=False, hold=0):
    try:
        st = Static(cfg)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.violations.append(Violation(("C01", "C03", "C04", "C20"),
                                        f"{cfg}: cannot enumerate blocks: {e!r} {getattr(e, 'what', '')} at {tb.filename}:{tb.lineno}",
                                        replay={"func": "mc.sched:replay", "args": [cfg.spec(), []]}))
        return
    fails = [frozenset()]
    if singles:
        ks = st.keys if len(st.keys) <= 45 else [st.keys[0], st.keys[1], st.keys[len(st.keys) // 2], st.keys[-1]]
        fails += [frozenset([k]) for k in ks]
    if many:
        # many failures in one run
        for f in (st.keys, st.keys[::2], st.keys[1::2], st.keys[::5], st.keys[: len(st.keys) // 2]):
            fails.append(frozenset(f))
        for t in st.task_ids[:3]:
            mine = [k for k in st.keys if k[0] == t]
            fails += [frozenset(mine[::2]), frozenset(mine[1:])]
    res.states += 1
    for f in fails:
        held = () if not hold or f else st.keys if len(st.keys) <= hold else st.keys[:: len(st.keys) // 8]
        for p in tuple(held) + tuple(policies):
            viol = []
            if isinstance(p, str):
                policy_run(st, p, f, res, viol)
            else:
                hold_run(st, p, res, viol)
            res.executions += 1
            res.validated += 1
            if not f:
                res.outcome(f"{len(st.keys)} blocks, {sum(map(len, st.deps.values()))} deps, "
                            f"{sum(map(len, st.producers.values()))} across tasks")
            for pr, what, log in viol[:3]:
                res.violations.append(Violation(
                    pr, f"{what} [{cfg}]", trace=log,
                    replay={"func": "mc.sched:replay_policy", "args": [cfg.spec(), p if isinstance(p, str) else list(p), [list(k) for k in f]]}))
            if any(set(pr) & set(props) for pr, _, _ in viol) or len(res.violations) > 200:
                return


def replay_policy(spec, policy, fail):
    st = Static(Config.from_spec(spec))
    viol, res = [], Result()
    if isinstance(policy, str):
        policy_run(st, policy, frozenset(tup(k) for k in fail), res, viol)
    else:
        hold_run(st, tup(policy), res, viol)
    for p, what, log in viol:
        res.violations.append(Violation(p, what, trace=log))
    return res


def pair_cfg(a, b, retries=0):
    return Config([TaskSpec("A", a, retries=retries), TaskSpec("B", b, ["A"], retries=retries)], ["B"], "pair")


def pair_sweep(props, dims, tier, k, n, fails=False):
    from . import configs

    res = Result()
    gen = configs.pair_universe(tier) if dims == 1 else configs.pair_universe_2d(tier)
    for i, (a, b) in enumerate(gen):
        if i % n != k:
            continue
        if fails and tier == "quick" and (i // n) % 5:
            continue
        cfg = pair_cfg(a, b)
        pol = ("up-first", "wide-rev") if dims == 1 else ("wide",)
        sweep_cfg(cfg, res, props, policies=pol[-1:] if fails else pol, singles=fails, hold=999 * ("C03" in props and (tier == "thorough" or i % 7 == 0)))
        if i % 997 == 0:
            res.sample(repr(cfg), 1)
        if sum(1 for v in res.violations if set(v.props) & set(props)) >= 2:
            break
        if len(res.violations) > 200:
            break
    return res


def large_sweep(props, tier, k, n):
    """Larger graphs, systematic schedules, every single block failing."""
    from . import configs

    res = Result()
    for i, cfg in enumerate(configs.large(tier)):
        if i % n != k:
            continue
        sweep_cfg(cfg, res, props, policies=POLICIES if tier == "thorough" else ("wide", "down-first"), singles=True, many=True,
                  hold=(30 if tier == "quick" else 999) * bool({"C02", "C03"} & set(props)))
        res.sample(repr(cfg)[:200], 1)
        if sum(1 for v in res.violations if set(v.props) & set(props)) >= 2:
            break
    return res


def single_sweep(props, dims, tier, k, n):
    """All single-task geometries of the geometry universe, a few systematic schedules each."""
    from .geometry import universe

    res = Result()
    for i, geo in enumerate(universe(dims, tier)):
        if i % n != k:
            continue
        sweep_cfg(Config([TaskSpec("A", geo, retries=1)], None, "single"), res, props,
                  policies=("wide",) if i % 3 else ("wide-rev",), singles=False, hold=999 * ("C02" in props))
        if i % 997 == 0:
            res.sample(repr(geo), 1)
        if sum(1 for v in res.violations if set(v.props) & set(props)) >= 2 or len(res.violations) > 200:
            break
    return res


def mass(n):
    """Thousands of blocks ready, outstanding, retried or orphaned at once."""
    from daisy import BlockStatus, Scheduler

    from .configs import g1

    bad = []

    def sched(*tasks):
        t = Config(list(tasks)).build(check=lambda b: False)
        return Scheduler(list(t.values()))

    def counts(s, t):
        st = s.task_states[t]
        return {f: int(getattr(st, f + "_count")) for f in ("ready", "processing", "completed", "skipped", "failed", "orphaned", "pending")}

    def want(s, t, where, props, **kw):
        got = counts(s, t)
        exp = {k: kw.get(k, 0) for k in got}
        if got != exp:
            bad.append((props, f"{where}: the state of {t} is {got}, should be {exp}"))

    def take(s, t, where, props, k=n):
        out = {}
        for _ in range(k + 1):
            b = s.acquire_block(t)
            if b is None:
                break
            if b.block_id in out:
                bad.append((("C02", "C05", "C04"), f"{where}: {b} is handed out twice"))
                break
            out[b.block_id] = b
        if len(out) != k:
            bad.append((props, f"{where}: {len(out)} of {k} blocks are handed out"))
        return list(out.values())

    def give(s, blocks, status):
        for b in blocks:
            b.status = status
            s.release_block(b)

    ok, no = BlockStatus.SUCCESS, BlockStatus.FAILED
    # all blocks outstanding, all fail, all again
    w = f"{n} independent blocks, all outstanding at once"
    s = sched(TaskSpec("A", g1(n), retries=2))
    want(s, "A", w, ("C04", "C07"), ready=n)
    for i in range(3):
        bl = take(s, "A", f"{w}, attempt {i + 1}", ("C04", "C05"))
        if bad:
            return bad
        want(s, "A", w, ("C07",), processing=n)
        if i < 2:
            give(s, bl, no)
            want(s, "A", f"{w}, failed {i + 1} times", ("C05", "C07"), ready=n)
    give(s, bl[::2], no)
    give(s, bl[1::2], ok)
    want(s, "A", f"{w}, half of them failed for good", ("C05", "C07"), failed=len(bl[::2]), completed=len(bl[1::2]))
    if s.acquire_block("A") is not None:
        bad.append((("C05",), f"{w}: a block is handed out after all are resolved"))
    # all blocks depend on one
    w = f"{n} blocks that depend on one"
    two = (TaskSpec("A", g1(1, w=n), retries=0), TaskSpec("B", g1(n), ["A"], retries=0))
    s = sched(*two)
    want(s, "B", w, ("C03", "C07"), pending=n)
    give(s, take(s, "A", w, ("C04",), 1), ok)
    want(s, "B", w, ("C04", "C07"), ready=n)
    bl = take(s, "B", w, ("C04",))
    give(s, bl[:3], ok)
    give(s, bl[-3:], no)
    want(s, "B", w, ("C04", "C07"), processing=n - 6, completed=3, failed=3)
    s = sched(*two)
    give(s, take(s, "A", w, ("C04",), 1), no)
    want(s, "A", w + ", which fails", ("C06", "C07"), failed=1)
    want(s, "B", w + ", which fails", ("C06", "C07"), orphaned=n)
    if not s.task_states["B"].is_done():
        bad.append((("C06", "C07"), f"{w}, which fails: not done"))
    # all skipped
    t = Config([TaskSpec("A", g1(n), check=True), TaskSpec("B", g1(1), ["A"])]).build(check=lambda b: True)
    s = Scheduler(list(t.values()))
    w = f"{n} blocks, all of them done before"
    if s.acquire_block("A") is not None:
        bad.append((("C08",), f"{w}: a block is handed out"))
    want(s, "A", w, ("C08", "C07"), completed=n, skipped=n)
    want(s, "B", w, ("C08", "C07"), ready=1)
    return bad


def mass_sweep(n):
    res = Result()
    try:
        bad = mass(n)
    except Exception as e:
        bad = [(("C04", "C05", "C06", "C07", "C08"), f"{n} blocks: {e!r}")]
    res.states = res.executions = res.validated = 6
    res.transitions = 10 * n
    res.outcome(f"{n} blocks")
    for p, what in bad:
        res.violations.append(Violation(p, what, replay={"func": "mc.sched:mass_sweep", "args": [n]}))
    return res
