"""C14 on the pool itself: all sequences of resizes, stops, crashes, exits, errors and checks; and concurrent resizes."""

from . import simnet
from .core import Result, Violation
from .world import LockError

P = None


class StartError(Exception):
    pass


def body():
    """What the workers of the pool do: register, then obey."""
    import daisy

    w, eng = P, simnet.ENG
    me = eng.proc
    c = daisy.Context.from_env()
    w.register(me, c)
    if w.spec.get("late"):
        eng.yield_()
    eng.wait(lambda: me.info.get("cmd") is not None)
    cmd = me.info["cmd"]
    if cmd == "exit0":
        return
    if cmd == "raise":
        raise StartError(me.info["wid"])
    if cmd == "raise_unpicklable":
        raise LockError()
    if cmd.startswith("exit"):
        raise SystemExit(int(cmd[4:]))
    if cmd == "base":
        raise simnet.SimBase("x") if hasattr(simnet, "SimBase") else GeneratorExit()


class PoolWorld:
    def __init__(self, spec, prefix, trace=False):
        self.spec = spec
        self.eng = simnet.Engine(prefix, trace=trace, horizon=20.0, max_steps=20000)
        self.eng.time_choice = False
        self.eng.choice_points = spec.get("threads") is not None
        self.eng.value_yield = spec.get("threads") is not None
        self.viol = []
        self.ids = {}
        self.hist = []
        self.started = []

    def bad(self, what, props=("C14",)):
        self.viol.append((tuple(props), what + f" [{' '.join(self.hist)}]"))
        self.eng.trace("VIOLATION", what)

    def on_start(self, proc, simproc):
        self.started.append(proc)

    def register(self, proc, c):
        try:
            wid = c["worker_id"]
            if str(wid) in self.ids:
                self.bad(f"two workers have the ID {wid}")
            self.ids[str(wid)] = proc
            proc.info["wid"] = str(wid)
            for k, v in self.spec.get("context", {}).items():
                if c[k] != str(v):
                    self.bad(f"context value {k}={v!r} reached the worker as {c[k]!r}", ("C14", "C18"))
        except KeyError as e:
            self.bad(f"the worker's context lacks {e}", ("C14", "C18"))

    def settle(self):
        self.eng.sleep(0.01)

    # ---- sequential operations, compared with a model

    def main(self):
        import daisy
        from daisy.worker_pool import WorkerPool

        eng = self.eng
        ctx = daisy.Context(**self.spec.get("context", {})) if "context" in self.spec else None
        if self.spec.get("warm"):  # workers of another pool come first
            other = WorkerPool(body, None)
            other.set_num_workers(self.spec["warm"])
            other.stop()
            if any(p.alive for p in self.started):
                self.bad("workers are alive after the pool was stopped")
            self.started.clear()
        pool = WorkerPool(body, ctx)
        members = []  # [proc, state] in the order of start; state: alive | finished | crashed
        errors = 0

        def start(n, before):
            new = self.started[before:]
            if len(new) != n:
                self.bad(f"{len(new)} workers started instead of {n}")
            members.extend([p, "alive"] for p in new)

        script = self.spec.get("script")
        for step in range(len(script) if script else self.spec["depth"]):
            alive = [m for m in members if m[1] == "alive"]
            ops = [("set", n) for n in range(self.spec.get("max", 3) + 1)] + [("stop",), ("reap",), ("errors",), ("inc", 1)]
            targets = [alive[0]] if alive else []
            if len(alive) > 1:
                targets.append(alive[-1])
            for i, m in enumerate(targets):
                ops += [("crash", m), ("exit0", m), ("stopid", m)]
                if i == 0:
                    ops += [("raise", m), ("raise_unpicklable", m), ("exit3", m)]
            if self.spec.get("codes") and alive:
                m = alive[0]
                ops = [("set", len(members) + 1), ("set", max(0, len(members) - 1)), ("reap",)]
                ops += [(f"exit{c}", m) for c in (0, 1, 2, 127, 130, 137, 143, 255)]
                ops += [("crash", m, c) for c in (-1, -2, -6, -9, -11, -13, -15)]
            gone = [m for m in members if m[1] != "alive"]
            if gone:
                ops += [("stopid", gone[0])]
            if script:
                op = tuple(script[step])
            else:
                c = eng.choose("o", 1 + len(ops))
                if c == 0:
                    break
                op = ops[c - 1]
            self.hist.append(op[0] + (str(op[1]) if len(op) > 1 and isinstance(op[1], int) else
                                      f"({self.started.index(op[1][0])})" if len(op) > 1 else ""))
            before = len(self.started)
            want = 0
            k = op[0]
            if k == "set":
                pool.set_num_workers(op[1])
                d = op[1] - len(members)
                if d < 0:
                    del members[d:]
                want = max(0, d)
            elif k == "inc":
                pool.inc_num_workers(1)
                want = 1
            elif k == "stop":
                pool.stop()
                members.clear()
            elif k == "stopid":
                pool.stop(int(op[1][0].info["wid"]))
                members.remove(op[1])
            elif k == "crash":
                eng.kill_proc(op[1][0], op[2] if len(op) > 2 else -9)
                op[1][1] = "crashed"
            elif k.startswith(("exit", "raise")):
                op[1][0].info["cmd"] = k
                self.settle()
                op[1][1] = "crashed" if k.startswith("exit") and k != "exit0" else "finished"
                if k.startswith("raise"):
                    errors += 1
            elif k == "reap":
                n = pool.reap_dead_workers()
                dead = [m for m in members if m[1] == "crashed"]
                for m in dead:
                    members.remove(m)
                if n != len(dead):
                    self.bad(f"{n} dead workers found, should be {len(dead)}")
            elif k == "errors":
                for _ in range(errors + 1):
                    try:
                        pool.check_for_errors()
                        if errors:
                            self.bad(f"{errors} errors of workers were not raised")
                            errors = 0
                        break
                    except (StartError, RuntimeError, LockError) as e:
                        if errors == 0:
                            self.bad(f"an error is raised again or without reason: {e!r}")
                            break
                        errors -= 1
            start(want, before)
            self.settle()
            for p in self.started:
                mem = [m for m in members if m[0] is p]
                should = bool(mem) and mem[0][1] == "alive"
                if p.alive != should:
                    self.bad(f"worker {self.started.index(p)} is {'alive' if p.alive else 'not alive'}")
            if len(set(p.info.get("wid") for p in self.started)) != len(self.started):
                self.bad("workers without an ID of their own")
        self.hist.append("stop")
        pool.stop()
        if any(p.alive for p in self.started):
            self.bad("workers are alive after the pool was stopped")
        # a stopped pool can be used again
        before = len(self.started)
        pool.set_num_workers(1)
        if len(self.started) - before != 1:
            self.bad("asked for one worker after being stopped, the pool started " + str(len(self.started) - before))
        pool.stop()
        if any(p.alive for p in self.started):
            self.bad("workers are alive after the pool was stopped again")

    # ---- concurrent operations

    def main_threads(self):
        from daisy.worker_pool import WorkerPool

        eng = self.eng
        pool = WorkerPool(body, None)
        n0 = self.spec.get("initial", 0)
        eng.choice_points = False
        if n0:
            pool.set_num_workers(n0)
        other = WorkerPool(body, None) if self.spec.get("other") else None
        eng.choice_points = True
        begun = len(self.started)
        targets = self.spec["threads"]

        def setter(n):
            (other if n < 0 else pool).set_num_workers(abs(n))

        ths = [simnet.SimThread(target=setter, args=(n,)) for n in targets[1:]]
        for t in ths:
            t.start()
        setter(targets[0])
        for t in ths:
            t.join()
        eng.choice_points = False
        self.settle()
        self.hist.append(f"{n0} workers, concurrent resizes to {targets}")
        for name, e in eng.thread_errors:
            self.bad(f"resizing raises {e!r}")
        if other is None:
            live = [p for p in self.started if p.alive]
            if len(live) not in targets:
                self.bad(f"{len(live)} workers are alive")
            import itertools

            ends = set()
            for perm in itertools.permutations(targets):
                cur, s = n0, 0
                for n in perm:
                    s += max(0, n - cur)
                    cur = n
                ends.add((cur, s))
            if (len(live), len(self.started) - begun) not in ends:
                self.bad(f"{len(self.started) - begun} workers were started, {len(live)} are alive")
        else:
            if sum(p.alive for p in self.started) != sum(abs(n) for n in targets):
                self.bad(f"{sum(p.alive for p in self.started)} workers are alive")
        if len(self.ids) != len(self.started):
            left = [p for p in self.started if "wid" not in p.info and p.alive]
            if left:
                self.bad(f"{len(left)} workers never came up")
        pool.stop()
        if other:
            other.stop()
        if any(p.alive for p in self.started):
            self.bad("workers are alive after the pool was stopped")

    def run(self):
        global P
        import daisy

        P = self
        daisy.logging.set_log_basedir(None)
        self.eng.hooks_start = self.on_start
        self.result = self.eng.run(self.main_threads if self.spec.get("threads") else self.main)
        P = None
        if self.result[0] == "hang":
            self.bad(f"does not end: {self.result[1]}")
        elif self.result[0] == "raised":
            import traceback

            tb = traceback.extract_tb(self.result[1].__traceback__)[-1]
            self.bad(f"raises {self.result[1]!r} at {tb.filename}:{tb.lineno}")


def run_pool(spec, prefix, trace=False):
    w = PoolWorld(spec, prefix, trace)
    w.run()
    r = simnet.Run()
    r.choices, r.result, r.violations = w.eng.choices, w.result, w.viol
    r.steps, r.diverged, r.log, r.eng = w.eng.steps, w.eng.diverged, w.hist + w.eng.log, None
    r.outcome = f"{w.result[0]} started={len(w.started)}"
    return r


def worlds(tier):
    th = tier == "thorough"
    out = [("sequences", dict(depth=5 if th else 4, max=3), {"o": 5 if th else 4}, 64 if th else 8),
           ("context", dict(depth=2, max=2, context=dict(task_id="A b", x=3, y="ü")), {"o": 2}, 1)]
    out.append(("exit codes", dict(depth=4, max=1, codes=True), {"o": 4}, 4))
    for n in (8, 9):
        out.append((f"sequences after {n}", dict(depth=4 if th else 3, max=3, warm=n), {"o": 4 if th else 3}, 8 if th else 2))
    out.append(("sequences after 98", dict(depth=3 if th else 2, max=3, warm=98), {"o": 3 if th else 2}, 4))
    big = [("set", n) for n in (12, 9, 13, 1, 30, 11, 10, 101, 99, 102, 0, 60, 0, 60, 5, 60, 0, 60, 59)]
    out.append(("many workers", dict(script=big), {}, 1))
    for n0, ths in ((0, [2, 3]), (0, [1, 1]), (2, [1, 3]), (3, [0, 2]), (1, [1, 2]), (2, [0, 0])):
        out.append((f"concurrent {n0} {ths}", dict(initial=n0, threads=ths), {"s": 3 if th else 2}, 8 if th else 2))
    out.append(("concurrent 3", dict(initial=1, threads=[2, 0, 3]), {"s": 2 if th else 1}, 4))
    out.append(("two pools", dict(initial=0, threads=[2, -2], other=True), {"s": 3 if th else 2}, 4))
    return out
