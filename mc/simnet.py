"""A controlled scheduler for daisy's distributed runs.

The real daisy code (server, clients, TCP layer, worker pools) runs on the real tornado; only what lies underneath is
replaced, inside one OS process:

* threads and worker processes are *actors*: OS threads of which exactly one runs at a time; every switch between
  them is a recorded choice,
* the asyncio loop below tornado is a :class:`MiniLoop`, whose callbacks run as scheduled steps,
* sockets are in-memory byte streams (with EOF and reset when an end is closed or its process dies),
* time is virtual: it advances to the next timeout when nothing else can run, or earlier by choice,
* queues, events, locks, processes and multiprocessing queues block in the scheduler.

Replacements are visible to daisy's modules only (import hook), so that it does not matter how daisy imports them.
A run is determined by its list of choices; :func:`explore` enumerates all lists with a bounded number of deviations
from the default choices.
"""

import asyncio
import builtins
import collections
import errno
import heapq
import importlib
import os as _os
import pickle
import queue as _queue
import socket as _socket
import sys
import threading as _threading
import time as _time
import types
import multiprocessing as _mp
import multiprocessing.pool as _mp_pool
import _thread

ENG = None  # the engine of the current run


class SimKilled(BaseException):
    """Unwinds the OS thread of an actor whose process died."""


class HarnessError(Exception):
    pass


_tl = _threading.local()


def _me():
    return getattr(_tl, "actor", None)


def active():
    return ENG is not None and _me() is not None


# --------------------------------------------------------------------------------------------------------- actors


class Proc:
    count = 5000

    def __init__(self, eng, name, parent=None):
        self.eng = eng
        Proc.count += 1
        self.pid = Proc.count  # never reused, also not by later runs
        self.num = len(eng.procs)
        self.name = name
        self.environ = dict(parent.environ) if parent else {}
        self.alive = True
        self.exitcode = None
        self.threads = []
        self.loops = []
        self.socks = []
        self.event_loop = {}
        self.info = {}


class ThreadActor:
    kind = "thread"

    def __init__(self, eng, proc, fn, name):
        self.eng, self.proc, self.fn, self.name = eng, proc, fn, name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.exit_lock = _thread.allocate_lock()
        self.exit_lock.acquire()
        self.cond = None
        self.deadline = None
        self.killed = False
        self.selfkill = False
        self.finished = False
        self.interrupt = None
        proc.threads.append(self)
        eng.actors.append(self)
        _thread.start_new_thread(self._run, ())

    def enabled(self, now):
        if self.cond is None:
            return True
        if self.interrupt is not None:
            return True
        if self.deadline is not None and self.deadline <= now:
            return True
        return bool(self.cond())

    def _run(self):
        _tl.actor = self
        self.lock.acquire()
        try:
            if not self.killed:
                self.fn()
        except SimKilled:
            pass
        except BaseException as e:  # reported by the function itself if it matters
            self.eng.thread_errors.append((self.name, e))
        self.finished = True
        eng = self.eng
        self.fn = None
        if self in eng.actors:
            eng.last_index = eng.actors.index(self)
            eng.actors.remove(self)
        if self.killed and not self.selfkill:
            self.exit_lock.release()
            return
        self.exit_lock.release()
        if not eng.over:
            eng._schedule(None)


class EventActor:
    """A one-shot step (e.g. the delivery of a signal)."""

    kind = "event"

    def __init__(self, eng, name, fn):
        self.eng, self.name, self.fn = eng, name, fn
        self.deadline = None
        eng.actors.append(self)

    def enabled(self, now):
        return True


class LoopActor:
    kind = "loop"

    def __init__(self, eng, loop, name):
        self.eng, self.loop, self.name = eng, loop, name
        self.proc = loop.proc
        eng.actors.append(self)

    @property
    def deadline(self):
        return self.loop.timers[0][0] if self.loop.timers else None

    def enabled(self, now):
        return self.loop.has_work(now)


# --------------------------------------------------------------------------------------------------------- engine


class Engine:
    def __init__(self, prefix=(), fine=False, horizon=30.0, max_steps=60000, frag=None, trace=False):
        if FRESH is not None:
            FRESH.restore()
        self.prefix = list(prefix)
        self.choices = []  # (class, number of alternatives, chosen, label)
        self.fine = fine
        self.frag = frag
        self.horizon = horizon
        self.now = 1000.0
        self.last_progress = self.now
        self.actors = []
        self.last_index = 0
        self.last = None
        self.cur_loop = None
        self.over = False
        self.hang = None
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.next_port = 40001
        self.next_fd = 100001
        self.socks = {}
        self.listeners = {}
        self.procs = []
        self.thread_errors = []
        self.loop_errors = []
        self.steps = 0
        self.max_steps = max_steps
        self.log = []  # events recorded by the harness
        self.tracing = trace
        self.diverged = 0
        self.early = 0
        self.keep = []
        self.dilled = {}
        self.time_choice = True
        self.choice_points = True
        self.inject = None  # () -> [(label, function)]: faults that could strike now
        self.inject_left = 0
        self.net = None  # what the socket module offers to the code under test (default: no network)
        self.on_end = None  # (process, exit code) -> None: told about processes that end
        self.busy = 0  # how often no port can be had
        self.on_connect = None  # (host, port) -> None: told about connection attempts
        self.main_proc = Proc(self, "main")
        self.procs.append(self.main_proc)

    # ---- bookkeeping

    def trace(self, *what):
        if self.tracing:
            who = self.cur_loop.name if self.cur_loop else (_me().name if _me() else "-")
            self.log.append(f"{self.now - 1000:.2f} {who}: " + " ".join(str(w) for w in what))

    def progress(self):
        self.last_progress = self.now

    @property
    def proc(self):
        if self.cur_loop is not None:
            return self.cur_loop.proc
        a = _me()
        return a.proc if a is not None else self.main_proc

    def check_killed(self):
        if self.cur_loop is not None:
            return
        a = _me()
        if a is None:
            return
        if a.killed or self.over:
            raise SimKilled()

    # ---- choices

    def choose(self, cls, n, label=""):
        """An n-way choice; 0 is the default, everything else costs one deviation of class cls."""
        if n <= 1:
            return 0
        k = len(self.choices)
        c = 0
        if k < len(self.prefix):
            c = self.prefix[k]
            if c >= n:
                self.diverged += 1
                c = 0
        self.choices.append((cls, n, c, label))
        if c and self.tracing:
            self.log.append(f"        <deviation {cls}: {label} -> {c}>")
        return c

    # ---- scheduling

    def yield_(self):
        """A point at which other actors may run."""
        if self.cur_loop is not None:
            return
        me = _me()
        if me is None:
            return
        self.check_killed()
        me.cond = None
        me.deadline = None
        self._schedule(me)

    def wait(self, cond, timeout=None):
        if self.cur_loop is not None:
            return bool(cond())
        me = _me()
        if me is None:
            return bool(cond())
        self.check_killed()
        me.cond = cond
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        try:
            self._schedule(me)
        finally:
            me.cond = None
            me.deadline = None
        if me.interrupt is not None:
            e, me.interrupt = me.interrupt, None
            raise e
        return bool(cond())

    def sleep(self, t):
        if self.over:
            raise SimKilled()
        if self.cur_loop is not None or _me() is None:
            return
        self.wait(_never, t)

    def _advance(self):
        ds = [d for d in (a.deadline for a in self.actors) if d is not None and d > self.now]
        if not ds:
            return False
        self.now = min(ds)
        return True

    def _stop_run(self, me, why):
        self.hang = why
        self.over = True
        self.done.release()
        if me is not None:
            raise SimKilled()

    def _schedule(self, me):
        while True:
            if self.over:
                if me is not None:
                    raise SimKilled()
                return
            self.steps += 1
            if self.steps > self.max_steps:
                return self._stop_run(me, f"no end after {self.max_steps} scheduling steps")
            now = self.now
            acts = self.actors
            i = -1
            if self.last is not None:
                try:
                    i = acts.index(self.last)
                except ValueError:
                    pass
            if i < 0:
                i = min(self.last_index, len(acts))
            en = [a for a in acts[i:] if a.enabled(now)]
            en += [a for a in acts[:i] if a.enabled(now)]
            if not en:
                if not self._advance():
                    return self._stop_run(me, "nothing can run and nothing ever will")
                if self.now - self.last_progress > self.horizon:
                    return self._stop_run(me, f"nothing happened for {self.horizon:.0f} s")
                continue
            if self.inject_left > 0:
                opts = self.inject()
                if opts:
                    c = self.choose("k", 1 + len(opts), [o[0] for o in opts] if self.tracing else "")
                    if c:
                        self.inject_left -= 1
                        self.trace("FAULT", opts[c - 1][0])
                        opts[c - 1][1]()
                        if me is not None and me.killed:
                            raise SimKilled()
                        continue
            n = len(en)
            timed = 0
            if self.time_choice and self.choice_points:
                for a in acts:
                    d = a.deadline
                    if d is not None and now < d <= now + 1.0:
                        timed = 1
                        break
            if n + timed > 1 and self.choice_points:
                c = self.choose("s", n + timed, [a.name for a in en] if self.tracing else "")
            else:
                c = 0
            if c == n:
                self._advance()
                self.early += 1
                self.trace("time passes")
                continue
            a = en[c]
            self.last = a
            if a.kind == "loop":
                self.cur_loop = a
                try:
                    a.loop.run_some(not self.fine)
                finally:
                    self.cur_loop = None
                self.progress()
                continue
            if a.kind == "event":
                self.last_index = acts.index(a)
                acts.remove(a)
                a.fn()
                if me is not None and me.killed:
                    raise SimKilled()
                continue
            if a is me:
                return
            a.lock.release()
            if me is None:
                return
            me.lock.acquire()
            if me.killed or self.over:
                raise SimKilled()
            return

    # ---- processes

    def spawn(self, proc, fn, name):
        return ThreadActor(self, proc, fn, name)

    def kill_proc(self, proc, code):
        """The process is gone, now: its threads stop, its sockets close."""
        if not proc.alive:
            return
        proc.alive = False
        proc.exitcode = code
        self.trace("process", proc.name, "ends with", code)
        if self.on_end is not None:
            self.on_end(proc, code)
        self.progress()
        me = _me()
        self_in = False
        for t in list(proc.threads):
            if t.finished:
                continue
            t.killed = True
            if t is me and self.cur_loop is None:
                t.selfkill = True
                self_in = True
                continue
            if t is me:  # a loop step of another process runs on its stack
                raise HarnessError("process killed from inside a loop step")
            if t in self.actors:
                self.actors.remove(t)
            t.lock.release()
            t.exit_lock.acquire()
        for lp in proc.loops:
            lp.dead = True
            if lp.actor in self.actors:
                self.actors.remove(lp.actor)
        for s in list(proc.socks):
            s.die()
        self.keep.append(proc)
        if self_in:
            me.selfkill = True

    def crash(self, code):
        """Called by an actor: its own process dies at this very point."""
        self.kill_proc(self.proc, code)
        raise SimKilled()

    # ---- running a scenario

    def run(self, fn):
        """Runs fn() as the main thread of the main process; returns ("ok", value) | ("raised", exception) |
        ("hang", why)."""
        global ENG
        box = {}

        def body():
            try:
                box["r"] = ("ok", fn())
            except SimKilled:
                raise
            except BaseException as e:
                box["r"] = ("raised", e)
            self.over = True
            self.done.release()

        ENG = self
        _install_policy()
        asyncio.set_event_loop_policy(_POLICY)
        try:
            main = self.spawn(self.main_proc, body, "main")
            self.last = main
            main.lock.release()
            self.done.acquire()
            self.over = True
            if self.hang and "r" not in box:
                box["r"] = ("hang", self.hang)
            if self.hang is None:
                main.exit_lock.acquire()
            for t in list(self.actors):
                if t.kind == "thread" and not t.finished:
                    t.killed = True
                    t.selfkill = True
                    t.lock.release()
                    t.exit_lock.acquire()
        finally:
            self._cleanup()
            ENG = None
            asyncio.set_event_loop_policy(None)
        return box.get("r", ("hang", self.hang or "lost"))

    def _cleanup(self):
        import tornado.ioloop

        for proc in self.procs:
            for lp in proc.loops:
                lp.dispose()
        tornado.ioloop.IOLoop._ioloop_for_asyncio.clear()
        self.actors = []
        self.socks = {}
        self.listeners = {}
        self.keep = []


def _never():
    return False


# --------------------------------------------------------------------------------------------------------- sockets


class SimSocket:
    def __init__(self, eng, proc):
        self.eng = eng
        self.proc = proc
        self.fd = eng.next_fd
        eng.next_fd += 1
        self.rbuf = bytearray()
        self.peer = None
        self.closed = False
        self.eof = False  # the peer has closed
        self.reset = False
        self.err = 0
        self.frag = None
        self.capacity = None
        self.was_cut = False
        self.addr = None
        eng.socks[self.fd] = self
        proc.socks.append(self)

    # -- what tornado uses

    def fileno(self):
        return -1 if self.closed else self.fd

    def setblocking(self, flag):
        pass

    def setsockopt(self, *a):
        pass

    def getsockopt(self, level, opt, *a):
        return self.err

    def getsockname(self):
        return self.addr or ("127.0.0.1", 0)

    def getpeername(self):
        return self.peer.getsockname() if self.peer else ("127.0.0.1", 0)

    @property
    def family(self):
        return _socket.AF_INET

    type = _socket.SOCK_STREAM

    def readable(self):
        return bool(self.rbuf) or self.eof or self.reset

    def writable(self):
        if self.peer is None or self.peer.closed or self.reset or self.was_cut:
            return True
        return self.peer.capacity is None or len(self.peer.rbuf) < self.peer.capacity

    def recv_into(self, buf, n=0):
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        if self.rbuf:
            k = min(n or len(buf), len(self.rbuf))
            if self.frag:
                k = min(k, self.frag)
            buf[:k] = self.rbuf[:k]
            del self.rbuf[:k]
            return k
        if self.reset:
            raise ConnectionResetError(errno.ECONNRESET, "connection reset")
        if self.eof:
            return 0
        raise BlockingIOError(errno.EAGAIN, "would block")

    def recv(self, n):
        b = bytearray(n)
        k = self.recv_into(b, n)
        return bytes(b[:k])

    def send(self, data):
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        p = self.peer
        if p is None or p.closed or self.was_cut:
            # the other side is gone: the first write may still be accepted by the kernel if the news has not
            # been seen, but nothing arrives
            raise BrokenPipeError(errno.EPIPE, "broken pipe")
        k = len(data)
        if p.capacity is not None:
            k = min(k, p.capacity - len(p.rbuf))
            if k <= 0:
                raise BlockingIOError(errno.EAGAIN, "would block")
        if self.frag:
            k = min(k, self.frag)
        p.rbuf += bytes(data[:k])
        return k

    def shutdown(self, how):
        if self.peer is not None:
            self.peer.eof = True

    def close(self):
        self._close()
        self.eng.yield_()

    def _close(self):
        if self.closed:
            return
        self.closed = True
        self.eng.socks.pop(self.fd, None)
        if self in self.proc.socks:
            self.proc.socks.remove(self)
        if self.peer is not None:
            self.peer.eof = True
            if self.rbuf:  # closing with unread data resets the connection
                self.peer.reset = True

    def die(self):
        self._close()

    def cut(self):
        """The network drops the connection: both ends see its end after what has arrived already."""
        for s in (self, self.peer):
            s.eof = True
            s.was_cut = True


class SimListenSocket(SimSocket):
    def __init__(self, eng, proc, port):
        super().__init__(eng, proc)
        self.addr = ("127.0.0.1", port)
        self.backlog = collections.deque()
        eng.listeners[port] = self

    def readable(self):
        return bool(self.backlog)

    def accept(self):
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        if not self.backlog:
            raise BlockingIOError(errno.EAGAIN, "would block")
        s = self.backlog.popleft()
        return s, s.peer.addr

    def listen(self, n=0):
        pass

    def _close(self):
        super()._close()
        self.eng.listeners.pop(self.addr[1], None)
        for s in self.backlog:
            s._close()
        self.backlog.clear()


def _connect_pair(eng, port):
    """The client side of a new connection to port, or ConnectionRefusedError."""
    lst = eng.listeners.get(port)
    if lst is None or lst.closed or not lst.proc.alive:
        raise ConnectionRefusedError(errno.ECONNREFUSED, "connection refused")
    c = SimSocket(eng, eng.proc)
    s = SimSocket(eng, lst.proc)
    c.peer, s.peer = s, c
    c.addr = ("127.0.0.1", 50000 + c.fd % 10000)
    s.addr = lst.addr
    if eng.frag:
        c.frag = s.frag = eng.frag.get("chunk")
        c.capacity = s.capacity = eng.frag.get("capacity")
    lst.backlog.append(s)
    return c


# ---------------------------------------------------------------------------------------------------------- asyncio


class MiniLoop(asyncio.AbstractEventLoop):
    def __init__(self):
        eng = ENG
        self.eng = eng
        self.proc = eng.proc
        self.ready = collections.deque()
        self.readers = {}
        self.writers = {}
        self.timers = []
        self.tseq = 0
        self.running = False
        self.stopping = False
        self._closed = False
        self.dead = False
        self.actor = LoopActor(eng, self, f"loop{self.proc.num}")
        self.started = False
        self.proc.loops.append(self)
        self._thread_identity = 0

    # -- scheduling interface

    def has_work(self, now):
        if not self.started or self.dead or self._closed:
            return False
        if self.ready:
            return True
        if self.timers and self.timers[0][0] <= now:
            return True
        for fd in self.readers:
            s = self.eng.socks.get(fd)
            if s is not None and s.readable():
                return True
        for fd in self.writers:
            s = self.eng.socks.get(fd)
            if s is not None and s.writable():
                return True
        return False

    def _poll(self):
        for fd, h in list(self.readers.items()):
            s = self.eng.socks.get(fd)
            if s is not None and s.readable():
                self.ready.append(h)
        for fd, h in list(self.writers.items()):
            s = self.eng.socks.get(fd)
            if s is not None and s.writable():
                self.ready.append(h)
        while self.timers and self.timers[0][0] <= self.eng.now:
            self.ready.append(heapq.heappop(self.timers)[2])

    def run_some(self, until_idle):
        asyncio._set_running_loop(self)
        self.running = True
        try:
            for _ in range(5000):
                if not self.ready:
                    self._poll()
                if not self.ready:
                    break
                h = self.ready.popleft()
                if not h._cancelled:
                    h._run()
                h = None
                if self.stopping or self._closed or not until_idle:
                    break
            else:
                raise HarnessError("event loop does not become idle")
        finally:
            self.running = False
            asyncio._set_running_loop(None)

    def dispose(self):
        self.dead = True
        self.ready.clear()
        self.readers.clear()
        self.writers.clear()
        self.timers.clear()

    # -- asyncio interface

    def run_forever(self):
        if not self.started:
            self.started = True
        self.stopping = False
        self.eng.wait(lambda: self.stopping or self._closed)
        self.started = False

    def run_until_complete(self, fut):
        fut = asyncio.ensure_future(fut, loop=self)
        self.started = True
        self.eng.wait(fut.done)
        self.started = False
        return fut.result()

    def stop(self):
        self.stopping = True

    def is_running(self):
        return self.started

    def is_closed(self):
        return self._closed

    def close(self):
        self._closed = True
        self.dispose()

    def get_debug(self):
        return False

    def time(self):
        return self.eng.now

    def call_soon(self, cb, *args, context=None):
        if self._closed:
            raise RuntimeError("Event loop is closed")
        h = asyncio.Handle(cb, args, self, context)
        self.ready.append(h)
        return h

    def call_soon_threadsafe(self, cb, *args, context=None):
        h = self.call_soon(cb, *args, context=context)
        self.eng.yield_()
        return h

    def call_later(self, delay, cb, *args, context=None):
        return self.call_at(self.eng.now + delay, cb, *args, context=context)

    def call_at(self, when, cb, *args, context=None):
        h = asyncio.TimerHandle(when, cb, args, self, context)
        self.tseq += 1
        heapq.heappush(self.timers, (when, self.tseq, h))
        return h

    def _timer_handle_cancelled(self, h):
        pass

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return asyncio.Task(coro, loop=self, name=name, context=context)

    def run_in_executor(self, executor, fn, *args):
        f = self.create_future()
        try:
            f.set_result(fn(*args))
        except Exception as e:
            f.set_exception(e)
        return f

    def add_reader(self, fd, cb, *args):
        self.readers[fd] = asyncio.Handle(cb, args, self, None)

    def remove_reader(self, fd):
        h = self.readers.pop(fd, None)
        if h:
            h.cancel()
        return h is not None

    def add_writer(self, fd, cb, *args):
        self.writers[fd] = asyncio.Handle(cb, args, self, None)

    def remove_writer(self, fd):
        h = self.writers.pop(fd, None)
        if h:
            h.cancel()
        return h is not None

    def call_exception_handler(self, context):
        self.eng.loop_errors.append(context)

    default_exception_handler = call_exception_handler

    def get_exception_handler(self):
        return None

    async def shutdown_asyncgens(self):
        pass

    async def shutdown_default_executor(self, timeout=None):
        pass


class Policy(asyncio.AbstractEventLoopPolicy):
    """The current event loop is a property of the running actor."""

    def _key(self):
        eng = ENG
        if eng is None:
            return None, None
        return eng.proc.event_loop, (eng.cur_loop or _me())

    def get_event_loop(self):
        d, k = self._key()
        if d is None or k not in d:
            raise RuntimeError("no current event loop")
        return d[k]

    def set_event_loop(self, loop):
        d, k = self._key()
        if d is not None:
            d[k] = loop

    def new_event_loop(self):
        return MiniLoop()


_POLICY = None


def _install_policy():
    global _POLICY
    if _POLICY is None:
        _POLICY = Policy()


# ------------------------------------------------------------------------------------------------ replaced libraries


class SimQueue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.queue = collections.deque()
        self.unfinished = 0

    def _enc(self, item):
        return item

    def qsize(self):
        return len(self.queue)

    def empty(self):
        return not self.queue

    def full(self):
        return 0 < self.maxsize <= len(self.queue)

    def _init(self):
        pass

    def _put(self, item):
        self.queue.append(item)

    def _get(self):
        return self.queue.popleft()

    def put(self, item, block=True, timeout=None):
        if active():
            ENG.check_killed()
            if self.full():
                if not block or ENG.cur_loop is not None:
                    raise _queue.Full
                if not ENG.wait(lambda: not self.full(), timeout):
                    raise _queue.Full
            self.unfinished += 1
            self._put(item)
            ENG.yield_()
            return
        if self.full():
            raise _queue.Full
        self._put(item)

    def get(self, block=True, timeout=None):
        if active():
            ENG.check_killed()
            if not block:
                ENG.yield_()
            elif not ENG.wait(lambda: bool(self.queue), timeout):
                raise _queue.Empty
        if not self.queue:
            raise _queue.Empty
        item = self._get()
        return item

    def put_nowait(self, item):
        return self.put(item, block=False)

    def get_nowait(self):
        return self.get(block=False)

    def task_done(self):
        self.unfinished -= 1

    def join(self):
        if active():
            ENG.wait(lambda: self.unfinished <= 0)


class SimLifoQueue(SimQueue):
    def _get(self):
        return self.queue.pop()


class SimPriorityQueue(SimQueue):
    def _get(self):
        i = min(range(len(self.queue)), key=lambda j: self.queue[j])
        item = self.queue[i]
        del self.queue[i]
        return item


class SimMPQueue(SimQueue):
    """multiprocessing.Queue: items are pickled by a background thread; what can not be pickled is dropped."""

    def __init__(self, maxsize=0, **kw):
        super().__init__(maxsize)

    def _put(self, item):
        try:
            self.queue.append(pickle.dumps(item))
        except Exception:
            pass

    def _get(self):
        return pickle.loads(self.queue.popleft())

    def close(self):
        pass

    def cancel_join_thread(self):
        pass

    def join_thread(self):
        pass


class SimLock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        if not active():
            self.owner = "outside"
            return True
        ENG.check_killed()
        if not blocking:
            ENG.yield_()
            if self.owner is not None:
                return False
        elif not ENG.wait(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout):
            return False
        self.owner = _me()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        if self.owner is not None:
            self.owner = None


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner is not None and self.owner is (_me() if active() else "outside"):
            self.count += 1
            return True
        r = super().acquire(blocking, timeout)
        if r:
            self.count = 1
        return r

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner = None

    def __exit__(self, *a):
        self.release()


class SimEvent:
    def __init__(self):
        self.flag = False

    def is_set(self):
        if active():
            ENG.check_killed()
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        if active():
            return ENG.wait(lambda: self.flag, timeout)
        return self.flag


class SimCondition:
    def __init__(self, lock=None):
        self.lock = lock or SimRLock()
        self.waiters = []
        self.acquire = self.lock.acquire
        self.release = self.lock.release

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]
        self.waiters.append(tok)
        self.lock.release()
        r = ENG.wait(lambda: tok[0], timeout)
        if tok in self.waiters:
            self.waiters.remove(tok)
        self.lock.acquire()
        return r

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout):
                return pred()
        return True

    def notify(self, n=1):
        for t in self.waiters[:n]:
            t[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


class SimSemaphore:
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        if not blocking:
            if self.value <= 0:
                return False
        elif not ENG.wait(lambda: self.value > 0, timeout):
            return False
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class SimThread:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThread._n += 1
        self.name = name or f"Thread-{SimThread._n}"
        self.daemon = bool(daemon)
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self._actor = None
        self._inline = None
        self.exc = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if not active():
            raise HarnessError("thread started outside of a run")
        eng = ENG
        import tornado.ioloop

        lp = getattr(self._target, "__self__", None)
        if isinstance(lp, tornado.ioloop.IOLoop) and getattr(self._target, "__name__", "") == "start":
            # a thread that does nothing but run an event loop: the loop itself is the actor
            lp = lp.asyncio_loop
            lp.started = True
            self._inline = lp
            return

        def body():
            try:
                self.run()
            except Exception as e:
                self.exc = e
                eng.thread_errors.append((self.name, e))

        self._actor = eng.spawn(eng.proc, body, f"{eng.proc.name}/{self.name}")

    def is_alive(self):
        if self._inline is not None:
            return self._inline.started and not self._inline.dead
        return self._actor is not None and not self._actor.finished

    def join(self, timeout=None):
        ENG.wait(lambda: not self.is_alive(), timeout)

    @property
    def ident(self):
        return id(self._actor or self._inline)


class SimProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = daemon
        self.name = name
        self._proc = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        eng = ENG
        if eng is None:
            raise HarnessError("process started outside of a run")
        eng.check_killed()
        p = Proc(eng, self.name or f"P{len(eng.procs)}", eng.proc)
        p.parent = eng.proc
        self._proc = p
        eng.procs.append(p)
        eng.trace("starts process", p.name)

        def body():
            code = 0
            try:
                self.run()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except SimKilled:
                raise
            except BaseException as e:
                code = 1
                p.info["error"] = e
            eng.kill_proc(p, code)
            _me().selfkill = True
            raise SimKilled()

        eng.spawn(p, body, p.name)
        eng.progress()
        if eng.hooks_start:
            eng.hooks_start(p, self)
        eng.yield_()

    def _signal(self, code):
        eng = ENG
        p = self._proc
        if eng is None or p is None or not p.alive:
            return
        eng.check_killed()
        EventActor(eng, f"signal{p.num}", lambda: eng.kill_proc(p, code))
        eng.yield_()

    def terminate(self):
        self._signal(-15)

    def kill(self):
        self._signal(-9)

    def join(self, timeout=None):
        if ENG is not None:
            ENG.wait(lambda: self._proc is None or not self._proc.alive, timeout)

    def is_alive(self):
        if ENG is not None:
            ENG.yield_()
        return self._proc is not None and self._proc.alive

    @property
    def exitcode(self):
        if self._proc is None or self._proc.alive:
            return None
        return self._proc.exitcode

    @property
    def pid(self):
        return None if self._proc is None else self._proc.pid

    ident = pid

    @property
    def sentinel(self):
        return self.pid

    def close(self):
        pass


Engine.hooks_start = None


class SimAsyncResult:
    def __init__(self):
        self.done = False
        self.value = None
        self.error = None

    def ready(self):
        return self.done

    def successful(self):
        return self.error is None

    def wait(self, timeout=None):
        ENG.wait(lambda: self.done, timeout)

    def get(self, timeout=None):
        if not ENG.wait(lambda: self.done, timeout):
            raise _mp.TimeoutError
        if self.error is not None:
            raise self.error
        return self.value


class SimThreadPool:
    def __init__(self, processes=None, initializer=None, initargs=(), **kw):
        self.threads = []

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = SimAsyncResult()

        def body():
            try:
                r.value = func(*args, **(kwds or {}))
            except SimKilled:
                raise
            except BaseException as e:
                r.error = e
            r.done = True

        ENG.spawn(ENG.proc, body, f"pool-thread{len(self.threads)}")
        self.threads.append(r)
        return r

    submit = None

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map(self, func, it, chunksize=None):
        return [r.get() for r in [self.apply_async(func, (x,)) for x in it]]

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        for r in self.threads:
            r.wait()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimValue:
    """multiprocessing.Value; reading and writing it are scheduling points where the engine asks for it."""

    def __init__(self, typecode="L", value=0, *, lock=True, ctx=None):
        self._v = value
        self._lock = lock if not isinstance(lock, bool) else SimRLock()

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self

    @property
    def value(self):
        v = self._v
        if active() and ENG.value_yield:
            ENG.yield_()
        return v

    @value.setter
    def value(self, v):
        if active() and ENG.value_yield:
            ENG.yield_()
        self._v = v

    def acquire(self, *a):
        return self._lock.acquire(*a)

    def release(self):
        return self._lock.release()

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()


Engine.value_yield = False


class SimFuture:
    """concurrent.futures.Future"""

    def __init__(self):
        self._done, self._value, self._error, self._cb, self._cancelled = False, None, None, [], False

    def _finish(self):
        self._done = True
        for cb in self._cb:
            cb(self)

    def set_result(self, v):
        self._value = v
        self._finish()

    def set_exception(self, e):
        self._error = e
        self._finish()

    def set_running_or_notify_cancel(self):
        return True

    def cancel(self):
        return False

    def cancelled(self):
        return False

    def running(self):
        return not self._done

    def done(self):
        return self._done

    def add_done_callback(self, cb):
        if self._done:
            cb(self)
        else:
            self._cb.append(cb)

    def _wait(self, timeout):
        import concurrent.futures

        if not ENG.wait(lambda: self._done, timeout):
            raise concurrent.futures.TimeoutError()

    def result(self, timeout=None):
        self._wait(timeout)
        if self._error is not None:
            raise self._error
        return self._value

    def exception(self, timeout=None):
        self._wait(timeout)
        return self._error


class SimThreadPoolExecutor:
    def __init__(self, max_workers=None, *a, **kw):
        self.futures = []

    def submit(self, fn, /, *args, **kw):
        f = SimFuture()

        def body():
            try:
                v = fn(*args, **kw)
            except SimKilled:
                raise
            except BaseException as e:
                f.set_exception(e)
            else:
                f.set_result(v)

        ENG.spawn(ENG.proc, body, f"pool-thread{len(self.futures)}")
        self.futures.append(f)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        return [f.result() for f in [self.submit(fn, *a) for a in zip(*its)]]

    def shutdown(self, wait=True, *, cancel_futures=False):
        if wait:
            for f in self.futures:
                ENG.wait(lambda f=f: f._done)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def _run_coroutine_threadsafe(coro, loop):
    f = SimFuture()

    async def body():
        try:
            v = await coro
        except BaseException as e:
            f.set_exception(e)
        else:
            f.set_result(v)

    def start():
        t = loop.create_task(body())
        f._task = t

    loop.call_soon_threadsafe(start)
    return f


class _Environ(collections.abc.MutableMapping):
    def _d(self):
        return ENG.proc.environ if ENG is not None else _os.environ

    def __getitem__(self, k):
        return self._d()[k]

    def __setitem__(self, k, v):
        if not isinstance(k, str) or not isinstance(v, str):
            raise TypeError("str expected")
        if "\0" in v or "\0" in k:
            raise ValueError("embedded null byte")
        self._d()[k] = v

    def __delitem__(self, k):
        del self._d()[k]

    def __iter__(self):
        return iter(self._d())

    def __len__(self):
        return len(self._d())

    def copy(self):
        return dict(self._d())


class Shim(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__["_real"], k)


def _now():
    return ENG.now if ENG is not None else _time.time()


def _time_():
    if ENG is not None and _me() is not None:
        ENG.check_killed()
    return _now()


def _sleep(t):
    if ENG is not None:
        ENG.sleep(t)
    else:
        _time.sleep(t)


def _getpid():
    return ENG.proc.pid if ENG is not None else _os.getpid()


def _exit(code):
    if ENG is not None:
        ENG.crash(code)
    _os._exit(code)


def _net(name):
    def call(*a, **kw):
        if ENG is None or ENG.net is None:
            raise OSError(errno.ENETUNREACH, "no network")
        return getattr(ENG.net, name)(*a, **kw)

    return call


_environ = _Environ()
_shim_os = Shim(_os, environ=_environ, getpid=_getpid, _exit=_exit, getenv=lambda k, d=None: _environ.get(k, d))
_shim_time = Shim(_time, time=_time_, monotonic=_time_, perf_counter=_time_, sleep=_sleep,
                  time_ns=lambda: int(_time_() * 1e9), monotonic_ns=lambda: int(_time_() * 1e9),
                  perf_counter_ns=lambda: int(_time_() * 1e9))
_shim_queue = Shim(_queue, Queue=SimQueue, SimpleQueue=SimQueue, LifoQueue=SimLifoQueue, PriorityQueue=SimPriorityQueue)
_shim_threading = Shim(_threading, Thread=SimThread, Lock=SimLock, RLock=SimRLock, Event=SimEvent, Condition=SimCondition,
                       Semaphore=SimSemaphore, BoundedSemaphore=SimSemaphore)
_shim_mp_pool = Shim(_mp_pool, ThreadPool=SimThreadPool, Pool=SimThreadPool)
_shim_mp = Shim(_mp, Process=SimProcess, Queue=SimMPQueue, SimpleQueue=SimMPQueue, JoinableQueue=SimMPQueue, Event=SimEvent,
                Lock=SimLock, RLock=SimRLock, pool=_shim_mp_pool, Value=SimValue)
_shim_mp.__dict__["get_context"] = lambda method=None: _shim_mp
_shim_mp_process = Shim(_mp.process)
_shim_mp_queues = Shim(importlib.import_module("multiprocessing.queues"), Queue=lambda maxsize=0, *, ctx=None: SimMPQueue(maxsize))
_shim_futures = Shim(importlib.import_module("concurrent.futures"), Future=SimFuture, ThreadPoolExecutor=SimThreadPoolExecutor,
                     ProcessPoolExecutor=SimThreadPoolExecutor)
_shim_concurrent = Shim(importlib.import_module("concurrent"), futures=_shim_futures)
_shim_asyncio = Shim(asyncio, run_coroutine_threadsafe=_run_coroutine_threadsafe)
_shim_socket = Shim(_socket, socket=_net("socket"), create_connection=_net("create_connection"), create_server=_net("create_server"))

SHIMS = {
    "os": _shim_os,
    "time": _shim_time,
    "queue": _shim_queue,
    "threading": _shim_threading,
    "multiprocessing": _shim_mp,
    "multiprocessing.pool": _shim_mp_pool,
    "multiprocessing.queues": _shim_mp_queues,
    "socket": _shim_socket,
    "concurrent": _shim_concurrent,
    "concurrent.futures": _shim_futures,
    "asyncio": _shim_asyncio,
    "dill": None,
}

def _dill_dumps(obj, *a, **kw):
    """Functions are handed to simulated processes as they are (pickling them is what would take most of the time of a
    run, and a forked process has a copy of them anyway)."""
    if ENG is None:
        import dill

        return dill.dumps(obj, *a, **kw)
    reg = ENG.dilled
    k = len(reg)
    reg[k] = obj
    return b"sim:%d" % k


def _dill_loads(data, *a, **kw):
    if ENG is not None and isinstance(data, bytes) and data.startswith(b"sim:"):
        return ENG.dilled[int(data[4:])]
    import dill

    return dill.loads(data, *a, **kw)


_real_import = builtins.__import__


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and globals is not None and name in SHIMS:
        mod = globals.get("__name__", "")
        if mod == "daisy" or mod.startswith("daisy."):
            if fromlist:
                return SHIMS[name]
            return SHIMS.get(name.split(".")[0], SHIMS[name])
    return _real_import(name, globals, locals, fromlist, level)


def _patch_tornado():
    import tornado.tcpserver
    import tornado.tcpclient
    import tornado.iostream
    import tornado.netutil
    import tornado.platform.asyncio
    import tornado.ioloop

    def bind_sockets(port, address=None, family=None, backlog=128, flags=None, reuse_port=False):
        eng = ENG
        if eng.busy > 0:
            eng.busy -= 1
            raise OSError(errno.EADDRINUSE, "address in use")
        if not port:
            port = eng.next_port
            eng.next_port += 1
        elif port in eng.listeners:
            raise OSError(errno.EADDRINUSE, "address in use")
        return [SimListenSocket(eng, eng.proc, port)]

    tornado.tcpserver.bind_sockets = bind_sockets
    tornado.netutil.bind_sockets = bind_sockets

    class SimTCPClient:
        def __init__(self, resolver=None):
            pass

        def close(self):
            pass

        async def connect(self, host, port, af=None, ssl_options=None, max_buffer_size=None, **kw):
            fut = asyncio.get_running_loop().create_future()
            asyncio.get_running_loop().call_soon(fut.set_result, None)
            await fut
            if ENG.on_connect is not None:
                ENG.on_connect(host, int(port))
            try:
                s = _connect_pair(ENG, int(port))
            except ConnectionRefusedError as e:
                raise tornado.iostream.StreamClosedError(real_error=e)
            return tornado.iostream.IOStream(s, max_buffer_size=max_buffer_size)

    tornado.tcpclient.TCPClient = SimTCPClient
    tornado.iostream.IOStream._is_connreset = tornado.iostream.BaseIOStream._is_connreset
    # tornado optimises with TCP_NODELAY etc.; harmless on SimSocket


_installed = False
FRESH = None


def install():
    """Make daisy (re-)imported by this process use the replacements."""
    global _installed
    if _installed:
        return
    _installed = True
    import gc
    import dill  # noqa
    import tqdm.auto  # noqa
    import tqdm

    SHIMS["dill"] = Shim(dill, dumps=_dill_dumps, loads=_dill_loads)
    for m in [m for m in sys.modules if m == "daisy" or m.startswith("daisy.")]:
        del sys.modules[m]
    _patch_tornado()
    builtins.__import__ = _import
    tqdm.tqdm.monitor_interval = 0
    sys.unraisablehook = lambda *a: None
    _threading.excepthook = lambda *a: None
    _install_policy()
    import daisy  # noqa
    import daisy.logging

    daisy.logging.redirect_stdouterr = lambda *a, **kw: None
    global FRESH
    from .fresh import Fresh

    FRESH = Fresh("daisy")
    gc.collect()
    gc.freeze()
    gc.disable()


# ---------------------------------------------------------------------------------------------------------- explore


class Run:
    """What one execution did."""

    __slots__ = ("choices", "result", "violations", "log", "outcome", "eng", "diverged", "steps")


def explore(run_once, budget, total=None, part=(0, 1), on_run=None, max_runs=None, stop_on=3, props=None):
    """Enumerates all executions whose choices deviate from the defaults at most budget[class] times per class (and
    `total` times altogether).  run_once(prefix) -> Run.  Returns a dict with statistics."""
    import gc

    total = sum(budget.values()) if total is None else total
    k, n = part
    stack = [((), {})]
    stats = {"runs": 0, "steps": 0, "diverged": 0, "capped": False, "choice_points": 0}
    bad = []
    first = True
    nth = 0
    while stack:
        prefix, used = stack.pop()
        r = run_once(prefix)
        count = not first or k == 0
        if count:
            stats["runs"] += 1
            stats["steps"] += r.steps
            stats["diverged"] += r.diverged
            stats["choice_points"] += len(r.choices)
            if on_run:
                on_run(prefix, r)
            if r.violations and (props is None or any(set(props) & set(v[0]) for v in r.violations)):
                bad.append((prefix, r))
                if len(bad) >= stop_on:
                    break
        if stats["runs"] % 200 == 0:
            gc.collect(1)
        if max_runs and stats["runs"] >= max_runs:
            stats["capped"] = True
            break
        if sum(used.values()) < total:
            chosen = [c[2] for c in r.choices]
            children = []
            for i in range(len(prefix), len(r.choices)):
                cls, m, _, _ = r.choices[i]
                if used.get(cls, 0) >= budget.get(cls, 0):
                    continue
                for alt in range(1, m):
                    if first:
                        nth += 1
                        if nth % n != k:
                            continue
                    u = dict(used)
                    u[cls] = u.get(cls, 0) + 1
                    children.append((tuple(chosen[:i]) + (alt,), u))
            stack.extend(reversed(children))
        first = False
    return stats, bad
