"""Complete distributed runs under the controlled scheduler, and the oracle that judges them.

A *world* is a task graph with worker counts, what the workers' code may do (fault choices) and which faults may strike
from outside.  The oracle only uses what can be observed from outside: what the user code in the workers did (the truth),
which blocks the scheduler handed out and took back, what observers were told, which processes exist, and the result.
"""

import collections
import hashlib
import json

from . import simnet
from .core import Result, Violation
from .sched import Config, Static, Model, WAIT, READY, OUT, DONE, FAILED, ORPHAN
from .geometry import Bad

W = None  # the world of the current run

PROPS_ALL = ("C02", "C03", "C05", "C09", "C10", "C11", "C12", "C14", "C16", "C17", "C21")


class Unpicklable(Exception):
    """Can be pickled, but not unpickled."""

    def __init__(self, a, b):
        super().__init__("boom")


class LockError(Exception):
    def __init__(self):
        super().__init__("holds something that can not be pickled")
        self.f = lambda: None


class UserExit(BaseException):
    pass


def process(block):
    """The process function of tasks in "fn" mode."""
    W.work(block)


def spawn():
    """The start function of tasks in "spawn" mode: written by the user, with a client of its own."""
    W.pick_start()
    client_loop()


def client_loop():
    import daisy

    w = W
    client = daisy.Client()
    w.note_client(client)
    while True:
        w.asks(client)
        with client.acquire_block() as block:
            w.answered(client, block)
            if block is None:
                break
            w.work(block)


# the properties that say when a block in some condition may be handed out
OWNERS = {DONE: ("C07", "C08"), FAILED: ("C05",), ORPHAN: ("C06",), WAIT: ("C03", "C04")}
# a run ends at most this long (virtual seconds) after a stop was requested
PROMPT = 3


def is_remote(p):
    return p.name.startswith("remote of")


class Attempt:
    __slots__ = ("key", "proc", "t1", "handout", "outcome", "ended", "reported")

    def __init__(self, key, proc, handout):
        self.key, self.proc, self.handout = key, proc, handout
        self.outcome = None
        self.ended = False


def make_leaver(server, method):
    """An observer that unregisters itself when it is told about an event of one kind."""
    from daisy.server_observer import ServerObserver

    class Leaver(ServerObserver):
        pass

    def leave(self, *args):
        self.server.unregister_observer(self)

    setattr(Leaver, method, leave)
    return Leaver(server)


class World:
    """One run.  spec keys: cfg, workers {tid: n}, mode, outcomes, start, kills, stop, entry, nfault (list of block
    indices that may fail; default all), done (blocks the check function reports), duration, fates (blocks of which every subset always
    ends with the outcome fate)."""

    def __init__(self, spec, st, prefix, trace=False):
        self.spec = spec
        self.st = st
        self.eng = simnet.Engine(prefix, trace=trace, fine=spec.get("fine", False), horizon=spec.get("horizon", 30.0),
                                 max_steps=spec.get("max_steps", 60000))
        self.model = Model(st)
        self.viol = []
        self.attempts = []
        self.active = {}
        self.handouts = collections.Counter()
        self.releases = collections.defaultdict(list)
        self.events = []
        self.started = {}
        self.killed = []
        self.answers = collections.Counter()
        self.none_ok = collections.Counter()
        self.nones = collections.Counter()
        self.in_acquire = 0
        self.seq = 0
        self.stopped = False
        self.done_keys = {(k[0], tuple(k[1])) for k in spec.get("done", [])}
        self.checked = []
        self.open_handout = {}
        self.reported_failures = 0
        self.expect_error = False
        self.start_error = False
        self.in_server = False
        self.states = None
        self.waiting = {}
        self.fault_left = spec.get("nfault", 99)
        self.fated = None
        self.shared = {}
        self.losses = 0
        self.due = {}

    # ---- helpers

    def bad(self, props, what):
        self.viol.append((tuple(props), what))
        self.eng.trace("VIOLATION", props, what)

    def key(self, block):
        return self.st.key(block)

    # ---- what the workers do

    def pick_start(self):
        e = self.eng
        outs = self.spec.get("start", ["ok"])
        out = outs[e.choose("f", len(outs), "start")] if self.fault_left > 0 else "ok"
        p = e.proc
        p.info["start"] = out
        p.info["t_err"] = self.eng.now
        if out != "ok":
            self.fault_left -= 1
            e.trace("start:", out)
        if out == "raise":
            self.start_error = True
            raise ValueError("start")
        if out == "raise_unpicklable":
            self.start_error = True
            raise LockError()
        if out.startswith("crash"):
            self.killed.append((p, e.now))
            p.info["killed"] = e.now
            e.crash(int(out[6:] or 3))
        if out == "slow":
            e.sleep(0.35)

    def note_client(self, client):
        pass

    def asks(self, client):
        self.tick()
        self.waiting[self.eng.proc] = (client.task_id, self.eng.now)
        self.tick()

    def answered(self, client, block):
        self.tick()
        t = self.waiting.pop(self.eng.proc, None)
        self.tick()
        if t is None:
            self.bad(("C11",), "answer without a request")
        if block is not None and block.task_id != client.task_id:
            self.bad(("C11",), f"worker of {client.task_id} got {block}")

    def lose(self, block, cut=True):
        """The connection over which this block was received is lost while it is processed."""
        e = self.eng
        k = self.key(block)
        a = Attempt(k, e.proc, self.handouts[k])
        self.attempts.append(a)
        self.judge_begin(a)
        a.outcome = "lost"
        a.ended = True
        self.losses += 1
        if cut:
            for s in list(e.proc.socks):
                s.cut()
            e.trace("connection lost while holding", k)
            e.sleep(self.spec.get("away", 0.35))

    def work(self, block, allow_many=False):
        """User code processing a block inside a worker."""
        e = self.eng
        p = e.proc
        try:
            k = self.key(block)
        except Bad as b:
            self.bad(("C01", "C22"), b.what)
            return
        e.trace("works on", k)
        a = Attempt(k, p, self.handouts[k])
        self.attempts.append(a)
        self.judge_begin(a)
        self.active[p] = a
        outs = self.spec.get("outcomes", ["ok"])
        only = self.spec.get("faulty")
        c = 0
        if len(outs) > 1 and self.fault_left > 0 and (only is None or [k[0], list(k[1])] in only):
            c = e.choose("f", len(outs), f"{k}")
        out = outs[c]
        if c:
            self.fault_left -= 1
        fates = self.spec.get("fates")
        if fates:
            # (a set of blocks whose processing always fails)
            if self.fated is None:
                m = e.choose("m", 2 ** len(fates), "which blocks fail")
                self.fated = [f for i, f in enumerate(fates) if m >> i & 1]
            if [k[0], list(k[1])] in self.fated:
                out = self.spec["fate"]
        d = self.spec.get("duration", 0)
        if isinstance(d, dict):
            d = d.get(k[0], 0)
        elif isinstance(d, list):
            d = d[sum(k[1]) % len(d)]
        if d:
            e.sleep(d)
        else:
            e.yield_()
        a.outcome = out
        a.ended = True
        a.t1 = e.now
        self.active.pop(p, None)
        e.trace("done with", k, ":", out)
        if out == "ok":
            return
        if out == "raise":
            raise ValueError(f"block {k}")
        if out == "raise_unpicklable":
            raise LockError()
        if out == "raise_nounpickle":
            raise Unpicklable(1, 2)
        if out == "created":
            from daisy import BlockStatus

            block.status = BlockStatus.CREATED
            return
        if out == "fail":
            from daisy import BlockStatus

            block.status = BlockStatus.FAILED
            return
        if out.startswith("crash"):
            self.killed.append((p, e.now))
            p.info["killed"] = e.now
            a.ended = False
            e.crash(int(out[6:] or 7))
        if out == "exit1":
            self.killed.append((p, e.now))
            p.info["killed"] = e.now
            raise SystemExit(1)
        if out == "baseexc":
            self.killed.append((p, e.now))
            p.info["killed"] = e.now
            raise UserExit()
        raise simnet.HarnessError(out)

    def judge_begin(self, a):
        k, m, st = a.key, self.model, self.st
        for p, o in self.active.items():
            if not p.alive:
                continue
            if o.key == k:
                self.bad(("C09", "C02"), f"{k} is given to a worker while another connected worker holds it")
            elif o.key in st.conflicts.get(k, ()):
                self.bad(("C02",), f"{k} is processed while conflicting block {o.key} is")
        if m.status[k] != OUT:
            self.bad(("C09",) + OWNERS.get(m.status[k], ()), f"a worker processes {k}, which is {m.status[k]}")
        for d in st.producers[k]:
            if m.status[d] != DONE:
                self.bad(("C03",), f"{k} is processed although {d}, which it reads from, is {m.status[d]}")

    def tick(self, served=None):
        """How long has a worker been waiting although its request could have been answered?"""
        if not self.spec.get("latency"):
            return
        now = self.eng.now
        for t in self.st.task_ids:
            n = sum(1 for tid, _ in self.waiting.values() if tid == t)
            c = self.model.counts(t)
            due = n > 0 and (c["ready_count"] > 0 or c["pending_count"] == 0)
            t0 = self.due.get(t)
            if t0 is not None and now - t0 > 2.0 + 1.1 * self.eng.early:
                self.bad(("C11",), f"a worker of {t} waited {now - t0:.1f} s although its request could be answered: {c}")
                self.due[t] = None
                return
            if not due:
                self.due[t] = None
            elif t0 is None or served == t:
                self.due[t] = now

    # ---- what the scheduler does (called by the recording scheduler)

    def check(self, block):
        k = self.key(block)
        self.checked.append(k)
        return k in self.done_keys

    def before_op(self):
        for t in self.st.task_ids:
            if self.done_by_op.get(t) and ("done", t) not in self.seen_events:
                self.bad(("C17",), f"task {t} is done, but observers were not told before the next operation")
                self.seen_events.add(("done", t))
            for kind, n in (("acquire", self.n_handed[t]), ("release", self.n_back[t])):
                c = self.n_told[(kind, t)]
                if c < n and self.observed:
                    self.bad(("C17",), f"{c} {kind} events of {t} before the next operation, {n} expected")
                    self.n_told[(kind, t)] = n

    def on_acquire(self, tid, block):
        m = self.model
        for k in self.checked:
            if k in self.done_keys:
                m.skipped.add(k)
                m.success(k)
        self.checked = []
        if block is None:
            c = m.counts(tid)
            if c["ready_count"] == 0 and c["pending_count"] == 0:
                self.none_ok[tid] += 1
        else:
            k = self.key(block)
            self.eng.trace("hands out", k)
            if m.status[k] == OUT:
                self.bad(("C09", "C02"), f"{k} handed out again while outstanding")
            elif m.status[k] != READY:
                self.bad(("C09",) + OWNERS.get(m.status[k], ()), f"{k} handed out although it is {m.status[k]}")
            if k in m.skipped:
                self.bad(("C08",), f"{k} handed out although it was skipped")
            m.status[k] = OUT
            self.handouts[k] += 1
            self.n_handed[tid] += 1
            if self.spec.get("init") and tid not in self.inits:
                self.bad(("C23",), f"{k} handed out before the init callback of {tid} was called")
            self.open_handout[k] = (self.handouts[k], self.eng.now, self.eng.steps)
            if ("start", tid) not in self.seen_events and self.spec.get("entry", "server") == "server" and self.observed:
                self.bad(("C17",), f"block of {tid} handed out before observers were told that the task starts")
            if self.handouts[k] > self.st.spec[tid].retries + 1:
                self.bad(("C05",), f"{k} handed out {self.handouts[k]} times")
        self.after_op(tid)

    def on_release(self, block, status):
        k = self.key(block)
        m = self.model
        self.eng.trace("takes back", k, status)
        if m.status[k] != OUT:
            self.bad(("C09",), f"{k} returned to the scheduler as {status} although it is not outstanding")
            return
        self.n_back[k[0]] += 1
        n, t, step = self.open_handout.pop(k)
        att = [a for a in self.attempts if a.key == k and a.handout == n]
        if len(att) > 1:
            self.bad(("C09",), f"hand-out {n} of {k} was processed by {len(att)} workers")
        a = att[-1] if att else None
        if status == "SUCCESS":
            if a is not None and a.outcome == "lost":
                self.bad(("C09", "C21"), f"{k} was taken back already, but a late report counts as success")
            elif a is None or not a.ended or a.outcome != "ok":
                self.bad(("C09", "C10", "C12"), f"{k} counted as successful, but the worker's code "
                         f"{'never saw it' if a is None else 'ended with ' + str(a.outcome)}")
        elif status == "FAILED":
            lost = [p for p, _ in self.killed] + [p for p in self.eng.procs if not p.alive] + [1] * self.losses
            if a is None:
                if not lost and not self.spec.get("raw"):
                    self.bad(("C09", "C21", "C11"), f"{k} counted as failed, but it never reached a worker and none was lost")
            elif a.proc.alive and "killed" not in a.proc.info:
                limit = self.spec.get("overdue", {}).get(k[0])
                if limit is not None and self.eng.now - t > limit:
                    pass
                elif not a.ended:
                    self.bad(("C09", "C21"), f"{k} taken back although its holder is connected and still processing it")
                elif a.outcome == "ok":
                    self.bad(("C09", "C12", "C21"), f"{k} counted as failed, but it was processed successfully by a connected worker")
        else:
            self.bad(("C09", "C12"), f"{k} returned to the scheduler as {status}")
        if status == "SUCCESS":
            m.success(k)
        else:
            m.failure(k)
        self.after_op()

    def after_op(self, served=None):
        self.tick(served)
        for t in self.st.task_ids:
            if self.st.total[t] and self.model.done(t):
                self.done_by_op.setdefault(t, True)

    # ---- observers

    def on_event(self, kind, tid, state):
        m = self.model
        self.events.append((kind, tid))
        self.eng.trace("event", kind, tid)
        if ("exit", None) in self.seen_events:
            self.bad(("C17",), f"event {kind} {tid} after the server's exit")
        if kind in ("start", "done", "exit"):
            if (kind, tid) in self.seen_events:
                self.bad(("C17", "C10") if kind == "exit" else ("C17",), f"observers told twice: {kind} {tid}")
            self.seen_events.add((kind, tid))
        if kind in ("acquire", "release"):
            self.n_told[(kind, tid)] += 1
            if self.n_told[(kind, tid)] > (self.n_handed if kind == "acquire" else self.n_back)[tid]:
                self.bad(("C17",), f"event {kind} {tid} before it happened")
        if kind == "done" and not m.done(tid):
            self.bad(("C17",), f"observers told that {tid} is done with {m.counts(tid)}")
        if kind == "start" and any(self.handouts[k] for k in self.st.keys if k[0] == tid):
            self.bad(("C17",), f"observers told that {tid} starts after its first block was handed out")
        if state is not None:
            for f, v in m.counts(tid).items():
                got = int(getattr(state, f))
                if got != v:
                    self.bad(("C17", "C07"), f"event {kind} {tid}: {f} is {got}, should be {v}")

    # ---- processes

    def on_start(self, proc, simproc):
        w = getattr(simproc._target, "__self__", None)
        tid = wid = None
        try:
            tid = w.context["task_id"]
            wid = int(w.context["worker_id"])
        except Exception:
            pass
        proc.info["task"], proc.info["wid"], proc.info["t0"] = tid, wid, self.eng.now
        if wid is not None:
            if wid in self.started:
                self.bad(("C14",), f"worker ID {wid} used twice")
            self.started[wid] = proc
        if self.spec.get("init") and tid is not None and tid not in self.inits:
            self.bad(("C23",), f"a worker of {tid} is started before its init callback was called")
        if tid is not None:
            live = [p for p in self.eng.procs if p.alive and p.info.get("task") == tid]
            n = self.spec["workers"].get(tid, 1)
            if len(live) > n:
                self.bad(("C14",), f"{len(live)} live workers for {tid}, which has num_workers={n}")

    def injections(self):
        out = []
        if sum(1 for a in self.attempts if a.ended) < self.spec.get("kill_after", 0):
            return out
        for p in self.eng.procs[1:]:
            if p.alive and not self.ending:
                out.append((f"kill {p.name}", lambda p=p: self.kill(p)))
        return out

    def stop_injection(self):
        if self.in_server and not self.stopped:
            return [("stop", self.stop)]
        return []

    def stop(self):
        self.stopped = True
        self.t_stop = self.eng.now
        self.stop_event.set()

    def kill(self, p):
        self.killed.append((p, self.eng.now))
        p.info["killed"] = self.eng.now
        self.eng.kill_proc(p, -9)

    ending = False

    # ---- the run

    def run(self):
        global W
        import daisy

        W = self
        self.done_by_op = {}
        self.seen_events = set()
        self.observed = self.spec.get("entry", "server") == "server"
        self.n_handed, self.n_back, self.n_told = collections.Counter(), collections.Counter(), collections.Counter()
        eng = self.eng
        spec = self.spec
        eng.hooks_start = self.on_start
        eng.on_end = self.on_end
        eng.time_choice = spec.get("time_choice", True)
        if spec.get("kills"):
            eng.inject = self.injections
            eng.inject_left = spec["kills"]
        elif spec.get("stop"):
            eng.inject = self.stop_injection
            eng.inject_left = 1
        modes = spec.get("modes", {})
        default = spec.get("mode", "fn")
        fns = {"fn": process, "spawn": spawn}
        if any(m not in fns for m in [default, *modes.values()]):
            from . import scripts

            fns.update(scripts.FNS)
        procs = {t: fns[modes.get(t, default)] for t in self.st.task_ids}
        extra = {t: {"num_workers": spec["workers"].get(t, 1)} for t in self.st.task_ids}
        for t, kw in spec.get("extra", {}).items():
            extra[t].update(kw)
        self.inits = []
        if spec.get("init"):
            for t in extra:
                extra[t]["init_callback_fn"] = self.make_init(t)
        daisy.logging.set_log_basedir(None)
        self.tasks = self.st.cfg.build(check=self.check, process=procs, extra=extra)
        res = eng.run(self.main)
        self.result = res
        try:
            self.judge_end()
        finally:
            W = None
        return res

    init_error = None

    def on_end(self, p, code):
        """A worker that ends normally was told that there is nothing left to do."""
        t = p.info.get("task")
        if (code != 0 or t is None or self.spec.get("modes", {}).get(t, self.spec.get("mode", "fn")) not in ("fn", "spawn")
                or not self.in_server or self.stopped or self.start_error or self.init_error is not None):
            return
        # (a block that was handed out before may have come back meanwhile)
        left = [k for k in self.st.keys if k[0] == t and (
            self.model.status[k] == WAIT or self.model.status[k] == READY and not self.handouts[k])]
        if left:
            self.bad(("C11",), f"a worker of {t} was told to shut down although {left} are left to process")

    def make_init(self, tid):
        def init(context):
            self.eng.trace("init callback", tid)
            if tid in self.inits:
                self.bad(("C23",), f"init callback of {tid} called twice")
            self.inits.append(tid)
            if self.handouts and any(n and k[0] == tid for k, n in self.handouts.items()):
                self.bad(("C23",), f"init callback of {tid} called after its first block was handed out")
            if any(p.info.get("task") == tid for p in self.eng.procs):
                self.bad(("C23",), f"init callback of {tid} called after its first worker was started")
            try:
                got = {k: str(context[k]) for k in ("hostname", "port", "task_id")}
                want = {"hostname": str(self.server.hostname), "port": str(self.server.port), "task_id": tid}
                if got != want:
                    self.bad(("C23",), f"init callback of {tid} got {got}, should be {want}")
                r = dict(tok.split("=") for tok in context.to_env().split(":"))
                if {k: str(r[k]) for k in want} != want:
                    self.bad(("C23",), f"clients of {tid} can not use the context of the init callback")
                int(r["worker_id"])
            except Exception as e:
                self.bad(("C23",), f"context of the init callback of {tid}: {e!r}")
            outs = self.spec["init"]
            c = self.eng.choose("f", len(outs), f"init {tid}") if len(outs) > 1 else 0
            if outs[c] == "raise":
                self.init_error = ValueError("init callback of " + tid)
                raise self.init_error

        return init

    def main(self):
        import daisy
        from daisy.server_observer import ServerObserver

        w = self

        class Rec(daisy.Scheduler):
            def acquire_block(self, task_id):
                if w.in_acquire == 0:
                    w.before_op()
                w.in_acquire += 1
                try:
                    b = super().acquire_block(task_id)
                finally:
                    w.in_acquire -= 1
                w.on_acquire(task_id, b)
                return b

            def release_block(self, block):
                if w.in_acquire:
                    return super().release_block(block)
                w.before_op()
                status = block.status.name
                w.pending_release = (block, status)
                w.on_release(block, status)
                return super().release_block(block)

        class Obs(ServerObserver):
            def on_task_start(self, task_id, task_state):
                w.on_event("start", task_id, task_state)

            def on_acquire_block(self, task_id, task_state):
                w.on_event("acquire", task_id, task_state)

            def on_release_block(self, task_id, task_state):
                w.on_event("release", task_id, task_state)

            def on_task_done(self, task_id, task_state):
                w.on_event("done", task_id, task_state)

            def on_block_failure(self, block, exception, context):
                w.on_failure(block, exception, context)

            def on_server_exit(self):
                w.on_event("exit", None, None)

        tasks = [self.tasks[t] for t in self.st.task_ids]
        self.stop_event = simnet.SimEvent()
        host = self.spec.get("host")
        if self.spec.get("route"):
            from .address import Net

            self.eng.net = Net(self.eng, self.spec["route"])
        server = daisy.Server(stop_event=self.stop_event, **({"host": host} if host else {}))
        self.server = server
        if host and server.hostname != host:
            self.bad(("C25",), f"the server was given the host {host} and announces {server.hostname}")
        self.eng.on_connect = self.on_connect
        self.add_observers(server, Obs)
        sched = Rec(tasks)
        self.in_server = True
        try:
            states = server.run_blockwise(tasks, scheduler=sched)
        finally:
            self.in_server = False
            self.t_end = self.eng.now
            self.tick()
            self.alive_at_end = [p for p in self.eng.procs[1:] if p.alive and not is_remote(p)]
            if any(is_remote(p) for p in self.eng.procs):
                # clients elsewhere notice that they are not needed any more
                self.eng.inject_left = 0
                self.eng.sleep(3)
                self.remote_at_end = [p for p in self.eng.procs[1:] if p.alive and is_remote(p)]
            self.socks_at_end = [s for s in self.eng.main_proc.socks if s.peer is not None and not s.peer.closed]
        self.states = {t: {f: int(getattr(states[t], f)) for f in self.model.counts(t)} for t in self.st.task_ids}
        return self.states

    def on_connect(self, host, port):
        if (str(host), port) != (str(self.server.hostname), self.server.port):
            self.bad(("C25",), f"a client connects to {host}:{port}, the server is at {self.server.hostname}:{self.server.port}")

    failures = ()
    remote_at_end = ()

    def add_observers(self, server, Obs):
        """The recording observer, possibly next to one that unregisters itself (before or after it)."""
        kind = self.spec.get("leaver")
        if kind is None:
            Obs(server)
            return
        first, method = kind
        leaver = make_leaver(server, method) if first else None
        Obs(server)
        if not first:
            leaver = make_leaver(server, method)
        self.keep = leaver

    def on_failure(self, block, exception, context):
        self.events.append(("failure", block.task_id))
        if ("exit", None) in self.seen_events:
            self.bad(("C17",), "block failure reported after the server's exit")
        self.failures = self.failures + ((self.key(block), repr(exception)),)
        try:
            wid = int(context["worker_id"])
            p = self.started.get(wid)
            k = self.key(block)
            if p is None or not any(a.proc is p and a.key == k for a in self.attempts):
                self.bad(("C12", "C17"), f"failure of {k} attributed to worker {wid}, which never processed it")
        except KeyError:
            self.bad(("C12",), "failure without worker")

    # ---- the end

    def judge_end(self):
        kind, val = self.result
        m, st = self.model, self.st
        eng = self.eng
        raised = [a for a in self.attempts if a.outcome and a.outcome.startswith("raise")]
        if kind == "hang":
            props = ["C10"]
            out = [k for k in st.keys if m.status[k] == OUT]
            ready = [k for k in st.keys if m.status[k] == READY]
            if out:
                props += ["C09", "C21"]
            if ready:
                props += ["C11", "C04"]
            if not out and not ready:
                props += ["C04", "C06", "C07"]
            if m.skipped:
                props += ["C08"]
            if any(n > 1 for n in self.handouts.values()):
                props += ["C05"]
            if self.killed:
                props += ["C14", "C21"]
            self.bad(props, f"the run does not end ({val}); status: { {str(k): s for k, s in m.status.items()} }")
            return
        if self.init_error is not None:
            # the error ends the run
            if val is not self.init_error:
                self.bad(("C23",), f"the run ends with {val!r} instead of the error of the init callback")
            if self.alive_at_end:
                self.bad(("C23", "C10"), f"{len(self.alive_at_end)} worker processes are alive after the run")
            return
        if kind == "raised":
            if self.start_error:
                if not isinstance(val, (ValueError, RuntimeError, LockError)):
                    self.bad(("C10", "C14"), f"the run ends with {val!r} instead of the error of the start function")
            else:
                import traceback

                tb = traceback.extract_tb(val.__traceback__)
                where = f" at {tb[-1].filename}:{tb[-1].lineno}" if tb else ""
                props = ["C10"]
                if raised:
                    props.append("C12")
                if isinstance(val, (AssertionError, KeyError, RuntimeError)):
                    props += ["C09"]
                    if self.killed:
                        props += ["C14", "C21"]
                self.bad(props, f"the run ends with {val!r}{where}")
        elif self.start_error and not self.stopped:
            # the run may have ended before the error was seen
            if any(p.info.get("start", "").startswith("raise") and p.info["t_err"] < self.t_end - 1.0 for p in eng.procs):
                self.bad(("C10", "C14"), "an error of a worker's start function was not re-raised")
        if self.alive_at_end:
            self.bad(("C10", "C14"), f"{len(self.alive_at_end)} worker processes are alive after the run")
        if self.stopped and self.t_end - self.t_stop > PROMPT:
            self.bad(("C10",), f"the run goes on for {self.t_end - self.t_stop:.1f} s after a stop was requested")
        if self.remote_at_end:
            self.bad(("C10", "C12"), f"{len(self.remote_at_end)} clients in other processes still wait for blocks after the run")
        if self.socks_at_end:
            self.bad(("C10", "C13"), f"{len(self.socks_at_end)} connections are open after the run")
        if self.events.count(("exit", None)) != 1 and kind != "raised":
            self.bad(("C10", "C17"), f"observers told {self.events.count(('exit', None))} times about the exit")
        elif self.events.count(("exit", None)) != 1:
            self.bad(("C10", "C17"), f"the run raised {val!r}, observers told {self.events.count(('exit', None))} times about the exit")
        if kind == "ok" and not self.stopped:
            for t in st.task_ids:
                if not m.done(t):
                    self.bad(("C10", "C04"), f"the run ended by itself with {m.counts(t)} for {t}")
                if st.total[t] and ("done", t) not in self.seen_events:
                    self.bad(("C17",), f"observers never told that {t} is done")
        if kind == "ok":
            for t in st.task_ids:
                if self.states[t] != m.counts(t):
                    self.bad(("C10", "C07", "C06", "C08"), f"final state of {t} is {self.states[t]}, should be {m.counts(t)}")
            c = collections.Counter(self.events)
            for t in st.task_ids:
                h = sum(n for k, n in self.handouts.items() if k[0] == t)
                if c[("acquire", t)] != h:
                    self.bad(("C17",), f"{h} hand-outs of {t}, {c[('acquire', t)]} events")
                r = h - sum(1 for k in self.open_handout if k[0] == t)
                if c[("release", t)] != r:
                    self.bad(("C17",), f"{r} blocks of {t} returned to the scheduler, {c[('release', t)]} events")
                reported = [a for a in raised if a.key[0] == t]
                sure = [a for a in reported if "killed" not in a.proc.info]
                n = c[("failure", t)]
                if n > len(reported) or (n < len(sure) and not self.stopped):
                    self.bad(("C17", "C12"), f"{len(reported)} failures of {t} reported by workers, {n} events")
            for k, x in self.failures:
                pass
        if self.spec.get("init") and kind == "ok" and not self.stopped:
            for t in st.task_ids:
                if t not in self.inits and any(n and k[0] == t for k, n in self.handouts.items()):
                    self.bad(("C23",), f"init callback of {t} was never called")
        # workers
        t_end = getattr(self, "t_end", eng.now)
        for t in st.task_ids:
            mine = [p for p in eng.procs[1:] if p.info.get("task") == t]
            if not mine:
                continue
            n = self.spec["workers"].get(t, 1)
            crashed = [p for p in mine if "killed" in p.info and p.exitcode not in (0, None)]
            early = [p for p in crashed if p.info["killed"] < t_end - 1.0]
            restarts = 0
            per = collections.Counter(a.proc for a in raised)
            known = []  # when a worker was known to fail too often
            for p, x in per.items():
                restarts += x // 4
                if p.info.get("task") == t and self.spec.get("modes", {}).get(t, self.spec.get("mode", "fn")) in ("fn", "spawn"):
                    if x > 4:
                        self.bad(("C14",), f"a worker of {t} was not restarted, although {x} of its blocks raised")
                    if x == 4 and "killed" not in p.info:
                        known.append(max(a.t1 for a in raised if a.proc is p))
            known = [x for x in known if x < t_end - 1.0]
            if len(mine) > n + len(crashed) + restarts:
                self.bad(("C14",), f"{len(mine)} workers started for {t} (num_workers={n}, {len(crashed)} crashed)")
            if len(mine) < n + len(early) + len(known) and kind == "ok":
                self.bad(("C14",), f"only {len(mine)} workers started for {t} (num_workers={n}, {len(early)} crashed early, "
                                   f"{len(known)} failed too often)")
            if kind == "ok" and not self.spec.get("init"):
                # also in between, not only at the end
                for p in crashed:
                    t1 = p.info["killed"]
                    if t1 + 3.0 < t_end:
                        gone = sum(1 for q in crashed if q.info["killed"] <= t1)
                        if sum(1 for q in mine if q.info["t0"] <= t1 + 3.0) < n + gone:
                            self.bad(("C14",), f"a worker of {t} that died at {t1:.2f} was not replaced within three seconds")
                            break

    def outcome(self):
        kind, val = self.result
        h = tuple(sorted((str(k), n) for k, n in self.handouts.items()))
        f = tuple(self.model.status[k] for k in self.st.keys)
        return f"{kind} {'/'.join(f)} handouts={sum(self.handouts.values())} procs={len(self.eng.procs) - 1} kills={len(self.killed)}"


_statics = {}


def static_of(spec):
    key = json.dumps(spec["cfg"], sort_keys=True)
    if key not in _statics:
        _statics[key] = Static(Config.from_spec(spec["cfg"]))
    return _statics[key]


def run_world(spec, prefix, trace=False):
    st = static_of(spec)
    w = World(spec, st, prefix, trace)
    w.run()
    r = simnet.Run()
    r.choices = w.eng.choices
    r.result = w.result
    r.violations = w.viol
    r.steps = w.eng.steps
    r.diverged = w.eng.diverged
    r.log = w.eng.log
    r.outcome = w.outcome()
    r.eng = None
    return r


def explore(spec, budget, total=None, part=(0, 1), props=None, name="", max_runs=None, runner="mc.world:run_world"):
    """All executions of one world with a bounded number of deviations."""
    from .core import resolve

    simnet.install()
    run = resolve(runner)
    res = Result()

    def on_run(prefix, r):
        res.executions += 1
        res.validated += 1
        res.transitions += r.steps
        res.states += len(r.choices)
        res.outcome(f"{name}: {r.outcome}")

    stats, bad = simnet.explore(lambda p: run(spec, p), budget, total, tuple(part), on_run=on_run, max_runs=max_runs,
                                stop_on=3, props=props)
    if stats["diverged"]:
        res.notes["diverged"] = stats["diverged"]
    if stats["capped"]:
        res.capped.append(f"{name}: more than {max_runs} executions")
    res.sample({"world": name, "deviations": budget, "executions": stats["runs"], "choice points": stats["choice_points"]}, 1)
    seen = set()
    for prefix, r in bad:
        for pr, what in r.violations:
            sig = (pr, what[:60])
            if sig in seen or len(seen) > 8:
                continue
            seen.add(sig)
            t = run(spec, prefix, trace=True)
            res.violations.append(
                Violation(pr, f"{name}: {what}", trace=t.log[-60:],
                          replay={"func": "mc.world:replay", "args": [spec, list(prefix), name, runner], "kw": {}})
            )
    return res


def replay(spec, prefix, name="", runner="mc.world:run_world"):
    from .core import resolve

    simnet.install()
    r = resolve(runner)(spec, tuple(prefix), trace=True)
    res = Result()
    for pr, what in r.violations:
        res.violations.append(Violation(pr, f"{name}: {what}", trace=r.log))
    return res
