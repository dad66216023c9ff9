"""C15 (and the serial sides of C08, C16, C17): the real serial server, through all outcomes of the process functions and
all answers of the check functions, judged from what the user's functions and observers see."""

import collections
import contextlib
import io
import itertools
import re
import traceback

from . import simnet
from .core import Result, Violation
from .geometry import Bad
from .sched import Config, Model, Static, READY, OUT, DONE
from .world import OWNERS

OUTCOMES = ["ok", "fail", "success", "created"]


LEAVES = ("on_task_start", "on_acquire_block", "on_release_block", "on_task_done", "on_server_exit")


def check_summary(text, counts, bad):
    """The printed execution summary against {task: counts}."""
    if not counts:
        return
    names = "|".join(re.escape(t) for t in counts)
    parts = re.split(rf"(?m)^\s*Task ({names})\b", text)
    secs = collections.defaultdict(list)
    for name, body in zip(parts[1::2], parts[2::2]):
        secs[name].append(body)
    for t, c in counts.items():
        if len(secs[t]) != 1:
            bad(("C17",), f"the execution summary mentions task {t} {len(secs[t])} times")
            continue
        body = secs[t][0]
        for word, f in (("completed", "completed_count"), ("skipped", "skipped_count"), ("failed", "failed_count"),
                        ("orphaned", "orphaned_count"), ("num blocks", "total_block_count")):
            m = re.search(rf"{word}[^\d\n]*(-?\d+)", body)
            if m is None:
                bad(("C17",), f"the execution summary of {t} does not tell '{word}'")
            elif int(m.group(1)) != c[f]:
                bad(("C17",), f"the execution summary of {t} tells '{word}' {m.group(1)}, should be {c[f]}")
        if ("all blocks processed successfully" in body) != (c["completed_count"] == c["total_block_count"]):
            bad(("C17",), f"the execution summary of {t} is wrong about success: {c}")


class SerialWorld:
    """spec: cfg, entry ("server" | "run_blockwise"), outcomes, check ("choose" or absent), give (task IDs given)"""

    def __init__(self, spec, st, prefix):
        self.spec, self.st = spec, st
        self.prefix = list(prefix)
        self.choices = []
        self.diverged = 0
        self.viol = []
        self.model = Model(st)
        self.steps = 0
        self.log = []
        self.seen_events = set()
        self.events = []
        self.busy = None
        self.attempts = collections.Counter()
        self.oks = collections.Counter()
        self.limit = st.max_ops * 4

    def choose(self, cls, n, label=""):
        k = len(self.choices)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            self.diverged += 1
            c = 0
        self.choices.append((cls, n, c, label))
        return c

    def bad(self, props, what):
        self.viol.append((tuple(props), what))
        self.log.append(f"VIOLATION {what}")

    def tell_missing(self):
        if self.spec.get("entry", "server") != "server":
            return
        for t in self.st.task_ids:
            if self.st.total[t] and self.model.done(t) and ("done", t) not in self.seen_events:
                self.seen_events.add(("done", t))
                self.bad(("C17",), f"task {t} is done, but observers were not told before the next block")

    # ---- user code

    def check(self, block):
        self.steps += 1
        k = self.st.key(block)
        if self.model.status[k] != READY:
            self.bad(("C08", "C15"), f"check function asked for {k}, which is {self.model.status[k]}")
        a = self.choose("c", 3, f"check {k}")
        self.log.append(f"check {k}: {'FTE'[a]}")
        self.answer = (k, a)
        if self.steps > self.limit:
            raise EndlessRun()
        if a == 2:
            raise ValueError("check function")
        if a == 1:
            self.model.skipped.add(k)
            self.model.success(k)
            return True
        return False

    answer = None

    def work(self, block):
        from daisy import BlockStatus

        self.steps += 1
        m, st = self.model, self.st
        k = st.key(block)
        if self.busy:
            self.bad(("C15",), f"{k} processed inside the processing of {self.busy}")
        self.busy = k
        self.tell_missing()
        s = m.status[k]
        if s != READY:
            self.bad(("C15", "C16") + OWNERS.get(s, ("C09",)), f"{k} is processed although it is {s}")
        for p in st.producers[k]:
            if m.status[p] != DONE:
                self.bad(("C15", "C03"), f"{k} is processed although {p}, which it reads from, is {m.status[p]}")
        if st.spec[k[0]].check:
            if self.answer is None or self.answer[0] != k or self.answer[1] == 1:
                self.bad(("C08", "C15"), f"{k} processed, but the check function was last asked {self.answer}")
        self.attempts[k] += 1
        m.status[k] = OUT
        if self.spec.get("entry", "server") == "server":
            if ("start", k[0]) not in self.seen_events:
                self.bad(("C17",), f"{k} is processed before observers were told that the task starts")
            n = self.events.count(("acquire", k[0]))
            if n != sum(v for j, v in self.attempts.items() if j[0] == k[0]):
                self.bad(("C17",), f"{n} acquire events when the {sum(self.attempts.values())}th block is processed")
        outs = self.spec.get("outcomes", OUTCOMES)
        c = self.choose("f", len(outs), f"process {k}") if len(outs) > 1 else 0
        out = outs[c]
        self.log.append(f"process {k}: {out}")
        if self.steps > self.limit:
            raise EndlessRun()
        if out == "fail":
            block.status = BlockStatus.FAILED
            self.model.failure(k)
        elif out == "success":
            block.status = BlockStatus.SUCCESS
            self.model.success(k)
            self.oks[k] += 1
        else:
            if out == "created":
                # (any status but failed)
                block.status = BlockStatus.CREATED
            self.model.success(k)
            self.oks[k] += 1
        # (the model is ahead of the server from here until the block is released)
        self.busy = None

    # ---- observers

    def on_event(self, kind, tid, state):
        m = self.model
        self.events.append((kind, tid))
        self.log.append(f"event {kind} {tid}")
        if ("exit", None) in self.seen_events:
            self.bad(("C17",), f"event {kind} {tid} after the server's exit")
        if kind in ("start", "done", "exit"):
            if (kind, tid) in self.seen_events:
                self.bad(("C17",), f"observers told twice: {kind} {tid}")
            self.seen_events.add((kind, tid))
        if kind == "done" and not m.done(tid):
            self.bad(("C17",), f"observers told that {tid} is done with {m.counts(tid)}")
        if kind == "start" and any(n for k, n in self.attempts.items() if k[0] == tid):
            self.bad(("C17",), f"observers told that {tid} starts after its first block was processed")
        if state is not None and kind in ("acquire", "release", "done"):
            for f, v in m.counts(tid).items():
                if kind == "acquire":
                    # (the model notices the hand-out when the block is processed)
                    v += {"ready_count": -1, "processing_count": 1}.get(f, 0)
                if int(getattr(state, f)) != v:
                    self.bad(("C17", "C15", "C07") if kind == "release" else ("C17", "C07"), f"event {kind} {tid}: {f} is {getattr(state, f)}, should be {v}")

    # ---- the run

    def run(self):
        import daisy
        from daisy.server_observer import ServerObserver

        w, st = self, self.st
        daisy.logging.set_log_basedir(None)
        tasks = st.cfg.build(check=self.check, process=self.work)
        give = [tasks[t] for t in self.spec.get("give", st.task_ids)]
        before = list(give)

        class Obs(ServerObserver):
            def on_task_start(self, task_id, task_state):
                w.on_event("start", task_id, task_state)

            def on_acquire_block(self, task_id, task_state):
                w.on_event("acquire", task_id, task_state)

            def on_release_block(self, task_id, task_state):
                w.on_event("release", task_id, task_state)

            def on_task_done(self, task_id, task_state):
                w.on_event("done", task_id, task_state)

            def on_block_failure(self, block, exception, context):
                w.on_event("failure", block.task_id, None)

            def on_server_exit(self):
                w.on_event("exit", None, None)

        out = io.StringIO()
        self.result = None
        entry = self.spec.get("entry", "server")
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                if entry == "server":
                    s = daisy.SerialServer() if hasattr(daisy, "SerialServer") else __import__("daisy.serial_server", fromlist=["x"]).SerialServer()
                    if self.spec.get("leaver"):
                        from .world import make_leaver

                        first, method = self.spec["leaver"]
                        keep = [make_leaver(s, method)] if first else []
                        Obs(s)
                        keep += [] if first else [make_leaver(s, method)]
                    else:
                        Obs(s)
                    states = s.run_blockwise(give)
                else:
                    states = daisy.run_blockwise(give, multiprocessing=False)
        except EndlessRun:
            self.bad(("C15", "C16", "C04", "C05", "C06"), "the serial run does not end")
            return
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.bad(("C15", "C16", "C08", "C04", "C05", "C06", "C07"), f"the serial run raises {e!r} at {tb.filename}:{tb.lineno}")
            return
        m = self.model
        props = ("C15", "C16") if entry != "server" else ("C15",)
        if m.skipped:
            props += ("C08",)
        for t in st.task_ids:
            if not m.done(t):
                self.bad(props + ("C04", "C05", "C06"), f"the run ended with {m.counts(t)} for {t}")
        if give != before:
            self.bad(("C16",), "the caller's list of tasks was changed")
        try:
            for t in st.task_ids:
                for f, v in m.counts(t).items():
                    got = int(getattr(states[t], f))
                    if got != v:
                        self.bad(props + ("C07", "C06"), f"final state of {t}: {f} is {got}, should be {v}")
            if set(states) != set(st.task_ids):
                self.bad(props, f"final states are given for {sorted(states)}")
        except Exception as e:
            self.bad(props, f"can not read the final states: {e!r}")
        for k, n in self.oks.items():
            if n > 1:
                self.bad(("C15", "C16"), f"{k} was processed successfully {n} times")
        if entry == "server":
            c = collections.Counter(self.events)
            if c[("exit", None)] != 1 or self.events[-1] != ("exit", None):
                self.bad(("C17",), f"observers told {c[('exit', None)]} times about the exit")
            for t in st.task_ids:
                n = sum(v for k, v in self.attempts.items() if k[0] == t)
                for kind, want in (("acquire", n), ("release", n), ("start", min(n, 1))):
                    if c[(kind, t)] != want and not (kind == "start" and c[(kind, t)] == 1):
                        self.bad(("C17",), f"{c[(kind, t)]} {kind} events for {t}, {want} expected")
                if st.total[t] and not c[("done", t)]:
                    self.bad(("C17",), f"observers never told that {t} is done")
        else:
            check_summary(out.getvalue(), {t: m.counts(t) for t in st.task_ids}, self.bad)

    def outcome(self):
        return "/".join(self.model.status[k] for k in self.st.keys) + f" attempts={sum(self.attempts.values())}"


class EndlessRun(BaseException):
    pass


_statics = {}


def run_serial(spec, prefix, trace=False):
    key = repr(spec["cfg"])
    if key not in _statics:
        _statics[key] = Static(Config.from_spec(spec["cfg"]))
    w = SerialWorld(spec, _statics[key], prefix)
    try:
        w.run()
    except Bad as b:
        w.bad(("C15", "C01"), b.what)
    r = simnet.Run()
    r.choices, r.violations, r.steps, r.diverged, r.log = w.choices, w.viol, w.steps, w.diverged, w.log
    r.result, r.outcome, r.eng = None, w.outcome(), None
    return r


def explore(spec, budget, total=None, part=(0, 1), props=None, name=""):
    res = Result()

    def on_run(prefix, r):
        res.executions += 1
        res.validated += 1
        res.transitions += r.steps
        res.states += len(r.choices)
        res.outcome(f"{name}: {r.outcome}")

    stats, bad = simnet.explore(lambda p: run_serial(spec, p), budget, total, tuple(part), on_run=on_run, stop_on=3, props=props)
    res.sample({"world": name, "executions": stats["runs"], "choice points": stats["choice_points"]}, 1)
    for prefix, r in bad:
        for pr, what in r.violations[:4]:
            res.violations.append(Violation(pr, f"{name}: {what}", trace=r.log,
                                            replay={"func": "mc.serial:replay", "args": [spec, list(prefix)], "kw": {}}))
    return res


def replay(spec, prefix):
    res = Result()
    r = run_serial(spec, tuple(prefix))
    for pr, what in r.violations:
        res.violations.append(Violation(pr, what, trace=r.log))
    return res


def multi(items, props):
    res = Result()
    for name, spec, budget, total in items:
        res.merge(explore(spec, budget, total, props=props, name=name))
        if len(res.violations) > 3:
            break
    return res


def worlds(tier, prop):
    """(name, spec, budget, total)"""
    from . import configs

    th = tier == "thorough"
    out = []
    for cfg, _ in configs.exhaustive(tier):
        has_check = any(t.check for t in cfg.tasks)
        if prop == "C08" and not has_check:
            continue
        spec = dict(cfg=cfg.spec())
        n = sum(len(t.geo.blocks()) for t in cfg.tasks)
        att = sum(len(t.geo.blocks()) * (t.retries + 1) for t in cfg.tasks)
        big = n > 6 or att > 9 or (has_check and n > 4)
        if prop == "C16":
            continue
        b = {"f": 3 if th else 2, "c": 4 if th else 3} if big else {"f": 99, "c": 99}
        outs = ["ok", "fail"] if big else OUTCOMES if prop == "C15" else OUTCOMES[:3]
        out.append((cfg.name, dict(spec, outcomes=outs), b, (5 if th else 4) if big else None))
        if prop in ("C15", "C17"):
            out.append((cfg.name + " via run_blockwise", dict(spec, entry="run_blockwise", outcomes=["ok", "fail"]),
                        {"f": 1, "c": 2} if not th else {"f": 2, "c": 3}, None))
    if prop == "C17":
        for cfg, _ in configs.exhaustive("quick"):
            if cfg.name not in ("chain3", "check1", "free3-r1", "zero", "diamond"):
                continue
            for meth in LEAVES:
                for first in (True, False):
                    out.append((f"{cfg.name}, observer leaves in {meth}", dict(cfg=cfg.spec(), outcomes=["ok", "fail"], leaver=[first, meth]),
                                {"f": 1, "c": 1}, 1))
    if prop == "C16":
        for cfg, _ in configs.exhaustive("quick"):
            ids = [t.tid for t in cfg.tasks]
            if len(ids) < 2 and cfg.name not in ("zero", "free4", "check1"):
                continue
            need = {u for t in cfg.tasks for u in t.ups}
            sinks = [t for t in ids if t not in need]
            gives = set()
            for r in range(1, len(ids) + 1):
                for sub in itertools.permutations(ids, r):
                    if not set(sinks) <= set(sub):
                        continue
                    gives.add(sub)
                    gives.add(sub + sub[:1])
                    gives.add(sub + sub)
            for g in sorted(gives):
                out.append((f"{cfg.name} given {','.join(g)}", dict(cfg=cfg.spec(), entry="run_blockwise", give=list(g), outcomes=["ok", "fail"]),
                            {"f": 1, "c": 1}, 1 if not th else 2))
    return out
