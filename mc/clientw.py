"""C12: the real client against a scripted server: every way of leaving the acquire_block context, every kind of answer,
and the server disappearing at any point.  What the client sent is what arrives at the server."""

import pickle

from . import simnet
from .core import Result
from .world import LockError, Unpicklable

C = None


class BadRepr(Exception):
    def __repr__(self):
        raise ValueError("no repr")


class KwError(Exception):
    def __init__(self, *, code):
        super().__init__("kw")
        self.code = code


class Leave(Exception):
    pass


# name, succeeds, raises an Exception inside
PATHS = {
    "ok": (True, None),
    "set_success": (True, None),
    "set_failed": (False, None),
    "set_created": (False, None),
    "set_processing": (True, None),
    "value_error": (False, ValueError),
    "stop_iteration": (False, StopIteration),
    "key_error": (False, KeyError),
    "timeout_error": (False, TimeoutError),
    "connection_error": (False, ConnectionResetError),
    "memory_error": (False, MemoryError),
    "assertion": (False, AssertionError),
    "unpicklable": (False, LockError),
    "not_unpicklable": (False, Unpicklable),
    "kw_error": (False, KwError),
    "bad_repr": (False, BadRepr),
    "chained": (False, ValueError),
    "own_stream_closed": (False, None),  # a StreamClosedError raised by user code
    "keyboard": (False, KeyboardInterrupt),
    "system_exit": (False, SystemExit),
    "generator_exit": (False, GeneratorExit),
    "raise_after_success": (False, ValueError),
    "raise_after_failed": (False, ValueError),
    "keyboard_after_success": (None, KeyboardInterrupt),  # both are fine
    "continue": (True, None),
    "break": (True, None),
    "return": (True, None),
    "nested_raise_caught": (True, None),
}
NAMES = list(PATHS)


def misbehave(name, block):
    from daisy import BlockStatus
    from daisy.tcp import StreamClosedError

    if name == "set_success":
        block.status = BlockStatus.SUCCESS
    elif name == "set_failed":
        block.status = BlockStatus.FAILED
    elif name == "set_created":
        block.status = BlockStatus.CREATED
    elif name == "set_processing":
        block.status = BlockStatus.PROCESSING
    elif name == "value_error":
        raise ValueError("x", 1)
    elif name == "stop_iteration":
        next(iter(()))
    elif name == "key_error":
        {}["x"]
    elif name == "timeout_error":
        raise TimeoutError()
    elif name == "connection_error":
        raise ConnectionResetError("user's connection")
    elif name == "memory_error":
        raise MemoryError()
    elif name == "assertion":
        assert False, "user"
    elif name == "unpicklable":
        raise LockError()
    elif name == "not_unpicklable":
        raise Unpicklable(1, 2)
    elif name == "kw_error":
        raise KwError(code=3)
    elif name == "bad_repr":
        raise BadRepr()
    elif name == "chained":
        try:
            raise LockError()
        except LockError as e:
            raise ValueError("chained") from e
    elif name == "own_stream_closed":
        raise StreamClosedError("elsewhere", 1)
    elif name == "keyboard":
        raise KeyboardInterrupt()
    elif name == "system_exit":
        raise SystemExit(2)
    elif name == "generator_exit":
        raise GeneratorExit()
    elif name == "raise_after_success":
        block.status = BlockStatus.SUCCESS
        raise ValueError("after")
    elif name == "raise_after_failed":
        block.status = BlockStatus.FAILED
        raise ValueError("after")
    elif name == "keyboard_after_success":
        block.status = BlockStatus.SUCCESS
        raise KeyboardInterrupt()
    elif name == "nested_raise_caught":
        try:
            raise ValueError("caught")
        except ValueError:
            pass


class ClientWorld:
    """spec: blocks (number the server has), paths (names that can be chosen), gone: "kill" (the server may die at any
    point) | "close" (the server closes the connection instead of answering request number n)"""

    def __init__(self, spec, prefix, trace=False):
        self.spec = spec
        self.eng = simnet.Engine(prefix, trace=trace, horizon=spec.get("horizon", 20.0), max_steps=200000, fine=spec.get("fine", False))
        self.eng.time_choice = spec.get("time_choice", False)
        self.viol = []
        self.got = []  # what the server received
        self.did = []  # (block id, path)
        self.ready = False
        self.gone = False
        self.nones = 0
        self.client_done = False
        self.escaped = None
        self.sent = []

    def bad(self, what, props=("C12",)):
        self.viol.append((tuple(props), what))
        self.eng.trace("VIOLATION", what)

    def blocks(self):
        import daisy

        R, K = daisy.Roi, daisy.Coordinate
        out = []
        for i in range(self.spec.get("blocks", 2)):
            out.append(daisy.Block(R((0,), (10,)), R((i,), (3,)), R((i + 1,), (1,)), task_id="A"))
        return out

    def server(self):
        from daisy.tcp import TCPServer, StreamClosedError
        from daisy.messages import AcquireBlock, BlockFailed, ReleaseBlock, RequestShutdown, SendBlock

        w, eng = self, self.eng
        srv = TCPServer(host="127.0.0.1")
        w.port = srv.address[1]
        w.ready = True
        todo = self.blocks()
        requests = 0
        idle = 0
        while idle < 6:
            try:
                m = srv.get_message(timeout=0.1)
            except StreamClosedError:
                continue
            except Exception as e:
                w.bad(f"a message of the client can not be received: {e!r}")
                continue
            if m is None:
                idle += 1 if w.client_done else 0
                continue
            idle = 0
            if isinstance(m, AcquireBlock):
                requests += 1
                if m.task_id != "A":
                    w.bad(f"block of task {m.task_id} requested")
                if self.spec.get("gone") == "close" and requests == self.spec["close_at"]:
                    eng.sleep(self.spec.get("slow", 0))
                    w.gone = True
                    srv.disconnect()
                    return
                if self.spec.get("slow"):
                    eng.sleep(self.spec["slow"])
                try:
                    if todo:
                        b = todo.pop(0)
                        w.sent.append(b.block_id)
                        m.stream.send_message(SendBlock(b))
                    else:
                        m.stream.send_message(RequestShutdown())
                except StreamClosedError:
                    pass
            elif isinstance(m, BlockFailed):
                w.got.append(("failed", m.block.block_id, m.block.status.name, m.exception, str(m.context["worker_id"])))
            elif isinstance(m, ReleaseBlock):
                w.got.append(("release", m.block.block_id, m.block.status.name, None, None))
            else:
                w.bad(f"unexpected message {m}")
            eng.trace("server got", type(m).__name__)

    def client(self):
        import daisy
        from daisy.tcp import StreamClosedError
        from daisy.tcp.exceptions import NotConnected

        w, eng = self, self.eng
        names = self.spec.get("paths", NAMES)
        try:
            c = daisy.Client(daisy.Context(hostname="127.0.0.1", port=w.port, task_id="A", worker_id=17))
        except Exception as e:
            if not w.gone:
                w.bad(f"connecting raises {e!r}")
            w.client_done = True
            return

        def loop():
            for _ in range(8):
                inside = None
                try:
                    with c.acquire_block() as b:
                        if b is None:
                            w.nones += 1
                            eng.trace("client got None")
                            return
                        if b.status.name == "SUCCESS":
                            w.bad(f"{b.block_id} arrives as {b.status}")
                        k = eng.choose("o", len(names), "path") if len(names) > 1 else 0
                        inside = names[k]
                        if self.spec.get("pause"):
                            eng.sleep(self.spec["pause"])
                        w.did.append((b.block_id, inside))
                        eng.trace("client leaves by", inside)
                        misbehave(inside, b)
                        if inside == "continue":
                            continue
                        if inside == "break":
                            break
                        if inside == "return":
                            return
                except Exception as e:
                    if inside is None or isinstance(e, (StreamClosedError, NotConnected)) and w.gone:
                        if not w.gone:
                            w.bad(f"acquire_block raises {e!r}")
                        elif inside is None:
                            w.bad(f"acquire_block raises {e!r} instead of giving None when the server is gone")
                        else:
                            continue  # the block could not be reported; the next request must give None
                        return
                    w.bad(f"{e!r} escapes from the context ({inside})")
                except BaseException as e:
                    if isinstance(e, simnet.SimKilled):
                        raise
                    if PATHS.get(inside, (0, None))[1] is not type(e):
                        w.bad(f"{e!r} escapes from the context ({inside})")

        while True:
            n = len(w.did)
            loop()
            if w.nones or w.gone or len(w.did) == n or len(w.did) >= self.spec.get("blocks", 2):
                break
        eng.sleep(0.3)
        w.client_done = True
        eng.wait(lambda: not w.sproc._proc.alive, 5)

    def main(self):
        eng = self.eng
        p = simnet.SimProcess(target=self.server, name="server")
        p.start()
        eng.wait(lambda: self.ready or not p._proc.alive)
        self.sproc = p
        q = simnet.SimProcess(target=self.client, name="client")
        q.start()
        self.cproc = q
        if self.spec.get("gone") == "kill":
            eng.inject_left = 1
        q.join()
        eng.inject_left = 0
        self.client_done = True
        p.join()

    def inject(self):
        p = self.sproc._proc
        if not p.alive or self.client_done:
            return []

        def kill():
            self.gone = True
            self.eng.kill_proc(p, -9)

        return [("the server dies", kill)]

    def run(self):
        global C
        C = self
        import daisy

        daisy.logging.set_log_basedir(None)
        self.eng.inject = self.inject
        self.result = self.eng.run(self.main)
        C = None
        self.judge()

    def judge(self):
        kind, val = self.result
        if kind != "ok":
            return self.bad(f"does not end: {val}" if kind == "hang" else f"raises {val!r}")
        for p in self.eng.procs:
            if "error" in p.info:
                self.bad(f"{p.name} ends with {p.info['error']!r}")
        for i, (bid, path) in enumerate(self.did):
            good, exc = PATHS[path]
            mine = [g for g in self.got if g[1] == bid]
            rel = [g for g in mine if g[0] == "release"]
            fail = [g for g in mine if g[0] == "failed"]
            if len(rel) > 1 or len(fail) > 1:
                self.bad(f"block {bid} left by '{path}' was reported {len(rel)} times, with an exception {len(fail)} times")
            if not mine and not self.gone:
                self.bad(f"block {bid} left by '{path}' was never reported")
            for g in mine:
                if good is not None and (g[2] == "SUCCESS") != good:
                    self.bad(f"block {bid} left by '{path}' was reported as {g[2]}")
            is_exc = path == "own_stream_closed" or (exc is not None and issubclass(exc, Exception))
            if fail and not is_exc:
                self.bad(f"block {bid} left by '{path}' was reported with exception {fail[0][3]!r}")
            if not fail and is_exc and not self.gone:
                self.bad(f"the exception of block {bid} left by '{path}' was not reported")
            for g in fail:
                if g[4] != "17":
                    self.bad(f"exception attributed to worker {g[4]}")
                if not isinstance(g[3], BaseException):
                    self.bad(f"exception reported as {g[3]!r}")
                elif path in ("value_error", "key_error", "assertion", "chained") and type(g[3]) is not exc:
                    self.bad(f"exception of '{path}' reported as {g[3]!r}")
        for g in self.got:
            if g[1] not in [b for b, _ in self.did]:
                self.bad(f"block {g[1]} was reported although it was never given to the user")
        if not self.gone and len(self.did) < self.spec.get("blocks", 2):
            self.bad(f"only {len(self.did)} blocks were given to the user")
        if self.gone and not self.nones and self.spec.get("gone") == "close":
            self.bad("the context did not give None when the server closed the connection")

    def outcome(self):
        return f"{self.result[0]} gone={self.gone} nones={self.nones} {[(g[0], g[2]) for g in self.got]}"


def run_client(spec, prefix, trace=False):
    w = ClientWorld(spec, prefix, trace)
    w.run()
    r = simnet.Run()
    r.choices, r.result, r.violations = w.eng.choices, w.result, w.viol
    r.steps, r.diverged, r.log, r.outcome, r.eng = w.eng.steps, w.eng.diverged, w.eng.log, w.outcome(), None
    return r


def worlds(tier):
    th = tier == "thorough"
    few = ["ok", "value_error", "set_failed", "keyboard", "unpicklable"]
    out = [
        ("exit paths", dict(blocks=3 if th else 2), {"o": 3 if th else 2}, 16 if th else 8),
        ("exit paths, scheduled", dict(blocks=1), {"o": 1, "s": 1}, 8),
        ("server dies", dict(blocks=2, paths=few, gone="kill"), {"o": 1, "k": 1}, 4),
        ("server dies while processing", dict(blocks=2, paths=few, gone="kill", pause=0.15), {"o": 1, "k": 1}, 4),
        ("server dies, scheduled", dict(blocks=1, paths=["ok"], gone="kill"), {"k": 1, "s": 1}, 8),
    ]
    # answers, and blocks, that take long
    for slow, pause in ((700, 0.15), (0.0, 700), (130, 130)):
        out.append((f"slow server {slow}, slow user {pause}", dict(blocks=2, paths=few, slow=slow, pause=pause, horizon=2000.0), {"o": 1}, 1))
        out.append((f"slow server {slow}, slow user {pause}, closes", dict(blocks=2, paths=few[:1], slow=slow, pause=pause, horizon=2000.0, gone="close", close_at=2), {"o": 1}, 1))
    for n in (1, 2, 3):
        out.append((f"server closes at request {n}", dict(blocks=2, paths=["ok", "value_error"], gone="close", close_at=n),
                    {"o": 1, "s": 1}, 4))
    return out
