"""C26: several runs in one process, one after the other, under the controlled scheduler.  Every run is judged as if it
were alone: from what the user's functions see, from what is returned and printed."""

import collections
import contextlib
import io
import json

from . import simnet, world
from .conv import ConvWorld
from .sched import DONE, FAILED, ORPHAN, Config, Model, Static
from .serial import check_summary

_statics = {}


def static(cfg):
    key = json.dumps(cfg, sort_keys=True)
    if key not in _statics:
        _statics[key] = Static(Config.from_spec(cfg))
    return _statics[key]


class MultiWorld(ConvWorld):
    """additional spec keys: phases, a list of {cfg (index into cfgs), how (mp, serial, server), give, fresh (new task objects),
    faults (whether user code may fail)}; resume (a check function knows what was done in earlier runs)"""

    phase = 0
    limit = 400

    def bad(self, props, what):
        if self.phase:
            props = tuple(props) + ("C26",)
        super().bad(props, f"run {self.phase + 1}: {what}")

    def run(self):
        import daisy

        world.W = self
        self.eng.hooks_start = self.on_start
        self.built = {}
        self.persistent = set(self.done_keys)
        daisy.logging.set_log_basedir(None)
        if self.spec.get("kills"):
            self.eng.inject = self.injections
            self.eng.inject_left = self.spec["kills"]
        if self.spec.get("interrupt"):
            self.eng.inject = self.inject_interrupt
            self.eng.inject_left = 1
        try:
            res = self.eng.run(self.main)
            self.result = res
            if res[0] == "hang":
                self.bad(("C10", "C16"), f"the run does not end ({res[1]})")
            elif res[0] == "raised":
                raise res[1]
        finally:
            world.W = None
        return res

    def begin(self, ph):
        """A clean slate for the oracle."""
        self.st = static(self.spec["cfgs"][ph["cfg"]])
        self.model = Model(self.st)
        self.attempts, self.active, self.events, self.killed = [], {}, [], []
        self.handouts = collections.Counter()
        self.stopped = self.start_error = False
        self.waiting, self.due = {}, {}
        self.done_keys = set(self.persistent) if self.spec.get("resume") else set()
        self.faults = ph.get("faults", True)
        self.how = ph.get("how", "mp")
        self.serial_steps = 0
        self.inits = collections.Counter()
        self.ports_before = set(self.eng.listeners)
        if ph.get("fresh") or ph["cfg"] not in self.built:
            fns = {"fn": world.process, "spawn": world.spawn}
            fn = fns[self.spec.get("mode", "fn")]
            extra = {t: {"num_workers": self.spec["workers"].get(t, 1), "init_callback_fn": self.make_init(t)} for t in self.st.task_ids}
            self.built[ph["cfg"]] = self.st.cfg.build(check=self.check, process={t: fn for t in self.st.task_ids}, extra=extra)
        self.tasks = self.built[ph["cfg"]]

    def make_init(self, tid):
        def init(context):
            self.inits[tid] += 1
            if self.inits[tid] > 1:
                self.bad(("C23",), f"init callback of {tid} called twice")
            if self.how == "serial":
                return
            if any(a.key[0] == tid for a in self.attempts):
                self.bad(("C23",), f"init callback of {tid} called after its first block was processed")
            try:
                port = int(context["port"])
                old = port in self.ports_before and self.phase not in self.spec.get("early", ())
                if context["task_id"] != tid or port not in self.eng.listeners or old:
                    self.bad(("C23",), f"init callback of {tid} got {context}")
            except Exception as e:
                self.bad(("C23",), f"context of the init callback of {tid}: {e!r}")

        return init

    def judge_begin(self, a):
        if self.how != "serial" and not self.inits[a.key[0]]:
            self.bad(("C23",), f"{a.key} is processed before the init callback of its task was called")
        super().judge_begin(a)

    def pick_start(self):
        if self.faults:
            super().pick_start()

    def work(self, block, allow_many=False):
        if self.how == "serial":
            self.serial_steps += 1
            if self.serial_steps > self.limit:
                raise RuntimeError("the serial run does not end")
        left = self.fault_left
        if not self.faults:
            self.fault_left = 0
        try:
            super().work(block, allow_many)
        finally:
            if not self.faults:
                self.fault_left = left

    def main(self):
        import daisy

        self.main_actor = self.eng.main_proc.threads[0]
        self.text = ""
        self.left = [self.leftovers()]
        early = {}
        if self.spec.get("early"):
            # all servers are created before the first run
            early = {i: daisy.Server(stop_event=simnet.SimEvent()) for i in self.spec["early"]}
        for i, ph in enumerate(self.spec["phases"]):
            self.phase = i
            self.begin(ph)
            n0 = len(self.eng.procs)
            give = [self.tasks[t] for t in ph.get("give", self.st.task_ids)]
            before = list(give)
            out = io.StringIO()
            self.in_server = self.how != "serial"
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                    if self.how == "server":
                        server = early[i] if i in early else daisy.Server(stop_event=simnet.SimEvent())
                        states = server.run_blockwise(give)
                        res = all(s.completed_count == s.total_block_count for s in states.values())
                    else:
                        res = daisy.run_blockwise(give, multiprocessing=self.how == "mp")
                self.result = ("ok", res)
            except simnet.SimKilled:
                raise
            except Exception as e:
                self.result = ("raised", e)
            finally:
                self.in_server = False
            self.t_end = self.eng.now
            self.alive_at_end = [p for p in self.eng.procs[n0:] if p.alive]
            self.text = out.getvalue()
            self.left.append(self.leftovers())
            if give != before:
                self.bad(("C16",), "the caller's list of tasks was changed")
            self.judge_phase(ph)
            self.persistent |= {a.key for a in self.attempts if a.outcome == "ok" and a.ended}
            if self.viol:
                break
        return None

    def leftovers(self):
        """What there is in this process: threads, listening sockets, connections."""
        main = self.eng.main_proc
        return dict(threads=sum(1 for t in main.threads if not t.finished),
                    listening=len(self.eng.listeners),
                    connections=sum(1 for s in main.socks if s.peer is not None and not s.peer.closed))

    def judge_phase(self, ph):
        kind, val = self.result
        if self.how == "serial" and kind == "ok":
            # (the same as for a distributed run, from the final states)
            try:
                states = {t: {f: int(getattr(val[t], f)) for f in Model(self.st).counts(t)} for t in self.st.task_ids}
                ok = all(s["completed_count"] == s["total_block_count"] for s in states.values())
            except Exception as e:
                self.bad(("C15", "C16"), f"can not read the final states: {e!r}")
                return
            self.result = (kind, ok)
            self.judge_end()
            for t in self.st.task_ids:
                if not self.viol and states[t] != self.model.counts(t):
                    self.bad(("C15", "C16", "C07"), f"final state of {t} is {states[t]}, should be {self.model.counts(t)}")
            return
        if kind == "raised" and self.start_error:
            return
        self.judge_end()

    def judge_end(self):
        if self.how != "server":
            super().judge_end()
            return
        # without a monitor there is no summary
        import mc.conv as conv

        keep, conv.check_summary = conv.check_summary, lambda *a: None
        text = self.text
        raised = [a for a in self.attempts if a.outcome and a.outcome.startswith("raise")]
        self.text = "\n".join(f"exception {ValueError(f'block {a.key}')!r}" for a in raised)
        try:
            super().judge_end()
        finally:
            conv.check_summary = keep
            self.text = text

    def outcome(self):
        return f"{self.result[0]} after {self.phase + 1} runs, attempts={len(self.attempts)}, procs={len(self.eng.procs) - 1}"


def left_behind():
    """What remains of runs that have ended, for all sequences of three runs."""
    import itertools

    from .configs import g1
    from .core import Result, Violation
    from .sched import TaskSpec as T

    simnet.install()
    res = Result()
    cfg = Config([T("A", g1(1), retries=0)]).spec()
    for hows in itertools.product(("mp", "serial", "server"), repeat=3):
        for outs in (["ok"], ["fail"]):
            spec = dict(cfgs=[cfg], cfg=cfg, phases=[dict(cfg=0, how=h) for h in hows], workers={}, outcomes=outs, horizon=90.0)
            w = MultiWorld(spec, static(cfg), (), True)
            w.run()
            res.executions += 1
            res.validated += 1
            res.transitions += w.eng.steps
            args = {"func": "mc.multirun:left_behind", "args": []}
            for pr, what in w.viol:
                res.violations.append(Violation(pr, what, trace=w.eng.log, replay=args))
            for i, h in enumerate(hows[:len(w.left) - 1]):
                more = {k: w.left[i + 1][k] - w.left[i][k] for k in w.left[i]}
                res.outcome(f"{h}: {more}")
                grown = {k: n for k, n in more.items() if n > 0}
                if not grown:
                    continue
                # (the known finding: the listening socket, and the thread of the event loop)
                known = h != "serial" and set(grown) <= {"threads", "listening"} and max(grown.values()) == 1
                res.violations.append(Violation(("C26",), f"run {i + 1} of {hows} leaves behind: {grown}",
                                                key="run-leaves-listener" if known else None, trace=w.eng.log, replay=args))
    return res


def run_multi(spec, prefix, trace=False):
    w = MultiWorld(spec, static(spec["cfgs"][0]), prefix, trace)
    w.run()
    r = simnet.Run()
    r.choices, r.result, r.violations = w.eng.choices, w.result, w.viol
    r.steps, r.diverged, r.log, r.outcome, r.eng = w.eng.steps, w.eng.diverged, w.eng.log, w.outcome(), None
    return r


def worlds(tier):
    """(name, spec, budget, total, parts, properties)"""
    from .configs import g1
    from .sched import TaskSpec as T

    th = tier == "thorough"
    out = []
    P = ("C26",)

    def add(name, graphs, phases, budget, total=None, parts=1, deep=None, props=P, **kw):
        cfgs = [Config(list(g)).spec() for g in graphs]
        kw.setdefault("workers", {})
        kw.setdefault("horizon", 90.0)
        if th and deep:
            budget, total, parts = deep
        out.append((name, dict(cfgs=cfgs, cfg=cfgs[0], phases=phases, **kw), budget, total, parts, props))

    ph = lambda cfg=0, **k: dict(cfg=cfg, **k)
    chain = (T("A", g1(2), retries=1), T("B", g1(2), ["A"], retries=1))
    outs = ["ok", "fail", "raise"]
    hows = ("mp", "serial", "server")
    # the same tasks again, in every combination of ways
    for a in hows:
        for b in hows:
            for fresh in (False, True):
                o = outs if "serial" not in (a, b) else outs[:2]
                add(f"{a} then {b}{' (new tasks)' if fresh else ''}", [chain], [ph(how=a), ph(how=b, fresh=fresh)], {"f": 1}, None, 2,
                    outcomes=o, deep=({"f": 2}, None, 8))
    for order in ([0, 1], [1, 0], [1], [2, 0]):
        n = max(order) + 1
        add(f"servers created early {order}", [chain], [ph(how="server") for _ in range(n)] + [ph()], {"f": 1}, None, 1, outcomes=outs, early=order)
    add("three runs", [chain[:1]], [ph(), ph(), ph()], {"f": 2}, None, 2, outcomes=outs, deep=({"f": 3}, None, 8))
    add("always fails", [(T("A", g1(1), retries=2),)], [ph(), ph(how="serial"), ph(how="server"), ph()], {}, None, 1, outcomes=["fail"])
    add("schedules", [chain[:1]], [ph(), ph()], {"s": 1}, None, 4, workers={"A": 2}, deep=({"s": 2}, None, 64))
    add("crashes", [chain[:1]], [ph(), ph()], {"k": 1}, None, 4, kills=1, deep=({"k": 1, "s": 1}, None, 64))
    add("crash outcome", [chain[:1]], [ph(), ph()], {"f": 2}, None, 2, outcomes=["ok", "crash", "raise"])
    add("interrupted", [chain], [ph(), ph()], {"k": 1}, None, 2, interrupt=True, workers={"A": 2}, deep=({"k": 1, "s": 1}, None, 64))
    # an error of the start function ends the first run
    add("start error", [(T("A", g1(2)),)], [ph(), ph(faults=False)], {"f": 1, "s": 1}, None, 4, mode="spawn",
        start=["ok", "raise", "raise_unpicklable"], nfault=1)
    # other tasks with the same names
    small, large = (T("A", g1(1)),), (T("A", g1(3), retries=1),)
    conf = (T("A", g1(3, 1, 1, 1, conflict=True)), T("B", g1(1), ["A"]))
    other = (T("B", g1(1)), T("A", g1(2), ["B"]))
    graphs = [small, large, conf, other]
    for i in range(4):
        for j in range(4):
            if i != j:
                for how in ("mp", "serial"):
                    add(f"graph {i} then {j} {how}", graphs, [ph(i, how=how), ph(j, how=how)], {"f": 1}, None, 1, outcomes=outs[:2],
                        deep=({"f": 2}, None, 2))
    # a part of a graph, then all of it, then a part
    add("part", [chain, chain[:1]], [ph(1), ph(0), ph(1)], {"f": 1}, None, 1, outcomes=outs[:2])
    # a check function that knows what was done: runs are repeated until everything is done
    R = ("C26", "C08")
    ck = (T("A", g1(2), check=True, retries=0), T("B", g1(2), ["A"], check=True, retries=0))
    for a in ("mp", "serial"):
        for b in ("mp", "serial"):
            add(f"resume {a} {b}", [ck], [ph(how=a), ph(how=b), ph(faults=False)], {"f": 2}, None, 2, outcomes=outs[:2], resume=True, props=R,
                deep=({"f": 4}, None, 8))
    add("resume interrupted", [ck], [ph(), ph(), ph()], {"k": 1}, None, 2, resume=True, interrupt=True, props=R)
    ck1 = (T("A", g1(2), check=True, retries=1), T("B", g1(2), ["A"], check=True, retries=1))
    add("resume crashed", [ck1], [ph(), ph(faults=False)], {"k": 1}, None, 2, resume=True, kills=1, props=R)
    add("resume part", [ck, ck[:1]], [ph(1), ph(0), ph(0)], {"f": 2}, None, 2, outcomes=outs[:2], resume=True, props=R)
    return out
