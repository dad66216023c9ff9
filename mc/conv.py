"""C16: daisy.run_blockwise with multiprocessing, under the controlled scheduler.  Judged only from what the user's
functions see and from what is returned and printed."""

import collections
import contextlib
import io

from . import simnet, world
from .geometry import Bad
from .serial import check_summary
from .sched import DONE, FAILED, ORPHAN, WAIT, READY


class ConvWorld(world.World):
    """additional spec keys: give (IDs of the tasks passed to run_blockwise), interrupt (KeyboardInterrupt may strike)"""

    def on_acquire(self, *a):
        pass

    def judge_begin(self, a):
        # from the user's view only: what is read was written
        k, st = a.key, self.st
        ok = {x.key for x in self.attempts if x.outcome == "ok" and x.ended} | set(self.done_keys)
        for d in st.producers[k]:
            if d not in ok:
                self.bad(("C03", "C16"), f"{k} is processed although {d}, which it reads from, is not done")
        # (unless the worker died before it could report)
        if k in self.done_keys or any(x.key == k and x.outcome == "ok" and x.ended and "killed" not in x.proc.info for x in self.attempts):
            self.bad(("C16", "C09"), f"{k} is processed again although it was processed successfully")
        for p, o in self.active.items():
            if p.alive and o.key in st.conflicts.get(k, ()):
                self.bad(("C02",), f"{k} is processed while conflicting block {o.key} is")

    def check(self, block):
        return self.key(block) in self.done_keys

    def interrupt(self):
        self.stopped = True
        self.t_stop = self.eng.now
        self.main_actor.interrupt = KeyboardInterrupt()

    def inject_interrupt(self):
        # (only while it really waits: how often the code asks for a result that is there already is its own business)
        if self.in_server and not self.stopped and self.main_actor.cond is not None and not self.main_actor.enabled(self.eng.now):
            return [("KeyboardInterrupt", self.interrupt)]
        return []

    def main(self):
        import daisy

        if self.spec.get("interrupt"):
            self.eng.inject = self.inject_interrupt
            self.eng.inject_left = 1
        self.main_actor = self.eng.main_proc.threads[0]
        give = [self.tasks[t] for t in self.spec["give"]]
        before = list(give)
        out = io.StringIO()
        self.in_server = True
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                res = daisy.run_blockwise(give)
        finally:
            self.in_server = False
            self.t_end = self.eng.now
            self.alive_at_end = [p for p in self.eng.procs[1:] if p.alive]
            self.text = out.getvalue()
            if len(give) != len(before) or any(a is not b for a, b in zip(give, before)):
                self.bad(("C16",), "the caller's list of tasks was changed")
        return res

    def judge_end(self):
        kind, val = self.result
        st = self.st
        if kind == "hang":
            self.bad(("C10", "C16"), f"run_blockwise does not return ({val})")
            return
        if kind == "raised":
            if not self.start_error:
                self.bad(("C16", "C10"), f"run_blockwise raises {val!r}")
            if self.alive_at_end:
                self.bad(("C10",), "worker processes are alive after the run")
            return
        if self.alive_at_end:
            self.bad(("C10", "C14", "C16"), f"{len(self.alive_at_end)} worker processes are alive after run_blockwise returned")
        ok = collections.Counter(a.key for a in self.attempts if a.outcome == "ok" and a.ended)
        tried = collections.Counter(a.key for a in self.attempts)
        # final states, from the attempts alone: what depends on a failure is an orphan, even if it is done already
        m = self.model
        final = {}
        while len(final) < len(st.keys):
            for k in st.keys:
                if k in final or any(d not in final for d in st.deps[k]):
                    continue
                if any(final[d] != DONE for d in st.deps[k]):
                    final[k] = ORPHAN if not tried[k] else DONE if ok[k] else FAILED
                else:
                    final[k] = DONE if ok[k] or k in self.done_keys else FAILED if tried[k] else WAIT
        missing = [k for k in st.keys if final[k] != DONE]
        if val not in (True, False):
            self.bad(("C16",), f"run_blockwise returns {val!r}")
        if val and missing:
            self.bad(("C16",), f"run_blockwise returns {val!r}, but {missing} were not completed")
        if not val and not missing and not self.stopped:
            self.bad(("C16",), f"run_blockwise returns {val!r} although all blocks were completed")
        if self.stopped:
            if self.t_end - self.t_stop > world.PROMPT:
                self.bad(("C10", "C16"), f"run_blockwise goes on for {self.t_end - self.t_stop:.1f} s after it was interrupted")
            return
        for k in st.keys:
            if k in self.done_keys and final[k] == DONE:
                m.skipped.add(k)
                if tried[k]:
                    self.bad(("C08", "C16"), f"{k} was processed although it is done")
            if final[k] == WAIT:
                self.bad(("C16", "C10"), f"{k} was never processed")
            if final[k] == FAILED and tried[k] != st.spec[k[0]].retries + 1:
                self.bad(("C05", "C16"), f"{k} was tried {tried[k]} times")
        m.status.update(final)
        check_summary(self.text, {t: m.counts(t) for t in st.task_ids}, self.bad)
        # every exception of a process function is in the summary
        shown = [x for x in self.text.splitlines() if "exception" in x]
        raised = [a for a in self.attempts if a.outcome and a.outcome.startswith("raise")]
        if len(shown) != len(raised):
            self.bad(("C24",), f"the summary shows {len(shown)} of {len(raised)} exceptions raised in workers")
        for a in raised:
            if a.outcome == "raise" and not any(repr(ValueError(f"block {a.key}")) in x for x in shown):
                self.bad(("C24",), f"the summary does not show the exception raised for {a.key}")

    def outcome(self):
        kind, val = self.result
        return f"{kind} {val!r} {'interrupted' if self.stopped else ''} attempts={len(self.attempts)} procs={len(self.eng.procs) - 1}"


def run_conv(spec, prefix, trace=False):
    st = world.static_of(spec)
    w = ConvWorld(spec, st, prefix, trace)
    w.run()
    r = simnet.Run()
    r.choices, r.result, r.violations = w.eng.choices, w.result, w.viol
    r.steps, r.diverged, r.log, r.outcome, r.eng = w.eng.steps, w.eng.diverged, w.eng.log, w.outcome(), None
    return r


def worlds(tier):
    """(name, spec, budget, total, parts)"""
    from .configs import g1
    from .sched import TaskSpec as T
    from .worlds import W

    th = tier == "thorough"
    out = []

    def add(name, spec, budget, total=None, parts=1, deep=None):
        if th and deep:
            budget, total, parts = deep
        out.append((name, spec, budget, total, parts))

    chain = (T("A", g1(2)), T("B", g1(2), ["A"]))
    dia = (T("A", g1(1)), T("B", g1(1), ["A"]), T("C", g1(1), ["A"]), T("D", g1(1), ["B", "C"]))
    tri = (T("A", g1(1)), T("B", g1(1), ["A"]), T("C", g1(1), ["A", "B"]))
    long = (T("A", g1(1)), T("B", g1(1), ["A"]), T("C", g1(1), ["B"]), T("D", g1(1), ["C"]))
    for name, ts, gives in (
        ("chain", chain, (["B"], ["A", "B"], ["B", "A"], ["B", "B"], ["B", "A", "B", "A"])),
        ("diamond", dia, (["D"], ["D", "A"], ["C", "D", "B"], ["A", "B", "C", "D"], ["D", "C", "B", "A"], ["D", "D"])),
        ("triangle", tri, (["C"], ["A", "C"], ["C", "B"], ["C", "A", "B"])),
        ("long", long, (["D"], ["D", "B"], ["A", "D"])),
        ("fan", (T("A", g1(2)), T("B", g1(1), ["A"]), T("C", g1(2), ["A"])), (["B", "C"], ["C", "B"], ["C", "A", "B", "C"])),
        # blocks of upstream tasks that nobody reads
        ("unread", (T("A", g1(3)), T("B", g1(1), ["A"]), T("C", g1(2), ["A"])), (["B", "C"], ["C", "A", "B"])),
        ("unread-1", (T("A", g1(3)), T("B", g1(1), ["A"])), (["B"], ["B", "A"])),
        ("unread-2", (T("A", g1(2)), T("B", g1(2)), T("C", g1(1), ["A", "B"]), T("D", g1(1), ["C"])), (["D"], ["D", "B"])),
        ("free", (T("A", g1(1)), T("B", g1(2)), T("C", g1(1))), (["A", "B", "C"], ["C", "C", "A", "B"])),
    ):
        for g in gives:
            nm = f"{name} given {','.join(g)}"
            add(nm, W(*ts, give=g, outcomes=["ok", "fail", "raise"]), {"f": 1}, None, 1, deep=({"f": 2}, None, 2))
    # many tasks
    many = [T("T00", g1(1))] + [T(f"T{i:02}", g1(1), [f"T{i - 1:02}"]) for i in range(1, 40)]
    ladder = [T(f"{c}{i:02}", g1(1), [f"a{i - 1:02}", f"b{i - 1:02}"] if i else []) for i in range(24) for c in "ab"]
    star = [T(f"T{i:02}", g1(1)) for i in range(30)] + [T("Z", g1(1), [f"T{i:02}" for i in range(30)])]
    for name, ts, g in (("long-40", many, ["T39"]), ("ladder-24", ladder, ["b23", "a23"]), ("long-40 (two)", many, ["T39", "T20"]), ("star-30", star, ["Z"]), ("free-30", star[:-1], [t.tid for t in star[:-1]])):
        add(name, W(*ts, give=g, outcomes=["ok", "fail"]), {"f": 1}, None, 4)
    add("faults", W(T("A", g1(2), retries=1), T("B", g1(2), ["A"], retries=1), give=["B"],
        outcomes=["ok", "fail", "raise", "raise_unpicklable"]), {"f": 2}, None, 2, deep=({"f": 4}, None, 16))
    add("sched", W(*chain, give=["B"], workers={"A": 2, "B": 1}), {"s": 1}, None, 2, deep=({"s": 2}, None, 32))
    add("faults-sched", W(T("A", g1(1)), T("B", g1(1), ["A"]), give=["B"], outcomes=["ok", "fail", "raise"]),
        {"f": 1, "s": 1}, None, 4, deep=({"f": 2, "s": 1}, None, 16))
    add("interrupt", W(*chain, give=["B"], duration=0.3, interrupt=True), {"k": 1}, None, 1, deep=({"k": 1, "s": 1}, None, 32))
    add("interrupt-1", W(T("A", g1(1)), give=["A"], interrupt=True), {"k": 1, "s": 1}, None, 8)
    add("interrupt-long", W(T("A", g1(12)), give=["A"], interrupt=True, duration=0.6), {"k": 1}, None, 2)
    add("interrupt-fail", W(T("A", g1(2), retries=1), give=["A"], workers={"A": 2}, interrupt=True, outcomes=["ok", "raise", "fail"]),
        {"k": 1, "f": 1}, None, 4)
    keys = [("A", [0]), ("A", [1]), ("B", [0]), ("B", [1])]
    for mask in range(16):
        done = [k for i, k in enumerate(keys) if mask >> i & 1]
        add(f"check-{mask}", W(T("A", g1(2), check=True), T("B", g1(2), ["A"], check=True), done=done, give=["B"],
            outcomes=["ok", "fail"]), {"f": 1}, None, 1, deep=({"f": 2, "s": 1}, 2, 2))
    add("start-error", W(T("A", g1(1)), give=["A"], mode="spawn", start=["ok", "raise", "raise_unpicklable"], nfault=1),
        {"f": 1, "s": 1}, None, 2)
    return out
