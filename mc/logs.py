"""C24: where the output of workers goes, what the execution summary tells about failures, and that showing progress
leaves logging alone.  Real processes and files, in scratch directories."""

import contextlib
import io
import itertools
import json
import logging
import os
import re
import shutil
import signal
import sys
import tempfile
import traceback

from .core import Result, Violation

P = ("C24",)
OPS = ("print", "err", "fd1", "fd2", "sub", "log", "write")
ENDS = ("return", "raise", "exit")
BASES = ("default", "abs", "nested", "dots and blanks.d", "none", "context")
TASKS = ("t", "my.task", "a b", None)


def act(ops, end, tag):
    """Runs in the worker's process."""
    h = logging.StreamHandler()
    logger = logging.getLogger(f"verif.{tag}")
    logger.addHandler(h)
    for i, op in enumerate(ops):
        text = f"<{tag} {i} {op}>"
        if op == "print":
            print(text)
        elif op == "write":
            sys.stdout.write(text + "\n")
            sys.stdout.flush()
        elif op == "err":
            print(text, file=sys.stderr)
        elif op == "fd1":
            os.write(1, text.encode() + b"\n")
        elif op == "fd2":
            os.write(2, text.encode() + b"\n")
        elif op == "log":
            logger.error(text)
        elif op == "sub":
            pid = os.fork()
            if pid == 0:
                os.execv("/bin/echo", ["echo", text])
            os.waitpid(pid, 0)
    if end == "raise":
        raise ValueError(f"end of {tag}")
    if end == "exit":
        sys.exit(0)


def _program(case, scratch):
    """Runs in a process of its own: the program that starts workers."""
    import daisy
    from daisy.worker import Worker

    base, task, ops, end, stale, nested = case
    os.chdir(scratch)
    for fd, name in ((1, "program.out"), (2, "program.err")):
        f = os.open(os.path.join(scratch, name), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        os.dup2(f, fd)
    signal.alarm(60)
    logging.disable(logging.NOTSET)
    where = {"default": "daisy_logs", "abs": os.path.join(scratch, "logs"), "nested": "one/two/three",
             "dots and blanks.d": "dots and.blanks.d", "none": None, "context": os.path.join(scratch, "ctx")}[base]
    if base == "context":
        daisy.logging.set_log_basedir(os.path.join(scratch, "elsewhere"))
    elif base != "default":
        daisy.logging.set_log_basedir(where)
    if nested:
        # this program is itself a worker: it has a client, with the context it was given
        from daisy.tcp import TCPServer

        srv = TCPServer(host="127.0.0.1")
        mine = daisy.Context(hostname="127.0.0.1", port=srv.address[1], task_id="outer", worker_id=7)
        os.environ[daisy.Context.ENV_VARIABLE] = mine.to_env()
        client = daisy.Client()  # noqa
    kw = {} if task is None else {"task_id": task}
    context = daisy.Context(**kw)
    if base == "context":
        context["logdir"] = where
    names = []
    first = Worker.get_next_id() + 1
    for k in (0, 1):
        # where its log files will be, for stale ones
        d = None if where is None else os.path.join(scratch, where, *([task] if task else []))
        names.append(None if d is None else os.path.join(d, f"worker_{first + k}"))
        if stale and d is not None:
            os.makedirs(d, exist_ok=True)
            for e in (".out", ".err"):
                with open(names[k] + e, "w") as f:
                    f.write("from an earlier run\n" * 3)
    workers = []
    for k in (0, 1):
        w = Worker(lambda k=k: act(ops, end, f"w{k}"), context)
        workers.append(w)
    for w in workers:
        if w.process is not None:
            w.process.join()
    ids = [int(w.worker_id) for w in workers]
    if base != "context":
        tell = [daisy.logging.get_worker_log_basename(i, task) for i in ids]
        tell = [None if t is None else os.path.abspath(t) for t in tell]
    else:
        tell = None
    sys.stdout.flush()
    sys.stderr.flush()
    with open(os.path.join(scratch, "result.json"), "w") as f:
        json.dump({"ids": ids, "names": names, "first": first, "tell": tell, "where": where}, f)


def _read(path):
    try:
        with open(path) as f:
            return f.read()
    except FileNotFoundError:
        return None


def run_case(case):
    """Returns a list of what is wrong."""
    import daisy.worker  # noqa

    base, task, ops, end, stale, nested = case
    bad = []
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="verif-logs-"))
    try:
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                _program(case, scratch)
                rc = 0
            except BaseException:
                with open(os.path.join(scratch, "crash"), "w") as f:
                    f.write(traceback.format_exc())
            finally:
                os._exit(rc)
        _, status = os.waitpid(pid, 0)
        if os.path.exists(os.path.join(scratch, "crash")):
            return ["starting workers raises " + _read(os.path.join(scratch, "crash")).strip().splitlines()[-1]]
        if status:
            return [f"workers do not end (status {status})"]
        r = json.load(open(os.path.join(scratch, "result.json")))
        if len(set(r["ids"])) != 2:
            return [f"workers have the same ID: {r['ids']}"]
        texts = {}
        for d, _, fs in os.walk(scratch):
            for f in fs:
                if f != "result.json":
                    texts[os.path.join(d, f)] = _read(os.path.join(d, f))
        prog = {".out": os.path.join(scratch, "program.out"), ".err": os.path.join(scratch, "program.err")}
        for k in (0, 1):
            for e, kinds in ((".out", ("print", "fd1", "sub", "write")), (".err", ("err", "fd2", "log"))):
                want = [f"<w{k} {i} {op}>" for i, op in enumerate(ops) if op in kinds]
                if r["names"][k] is None:
                    home = prog[e]
                else:
                    home = os.path.join(os.path.dirname(r["names"][k]), f"worker_{r['ids'][k]}") + e
                    if home not in texts:
                        bad.append(f"there is no log file {os.path.relpath(home, scratch)} (there are "
                                   f"{sorted(os.path.relpath(t, scratch) for t in texts)})")
                        continue
                    if "earlier" in texts[home]:
                        bad.append(f"{os.path.relpath(home, scratch)} has output of an earlier run")
                    if any(f"<w{1 - k} " in line for line in texts[home].splitlines()):
                        bad.append(f"{os.path.relpath(home, scratch)} has output of another worker")
                for line in want:
                    at = {os.path.relpath(p, scratch): t.count(line) for p, t in texts.items() if line in t}
                    if at != {os.path.relpath(home, scratch): 1}:
                        bad.append(f"worker {k}'s {line} appears in {at}, should once in {os.path.relpath(home, scratch)}")
        if r["tell"] is not None:
            for k in (0, 1):
                if r["names"][k] is None:
                    if r["tell"][k] is not None:
                        bad.append(f"without a log directory, worker {k} is said to have the log {r['tell'][k]}")
                elif r["tell"][k] != os.path.join(os.path.dirname(r["names"][k]), f"worker_{r['ids'][k]}"):
                    bad.append(f"get_worker_log_basename tells {r['tell'][k]}")
        return bad
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def cases(tier):
    n = 3 if tier == "thorough" else 2
    seqs = [s for k in range(0, n + 1) for s in itertools.product(OPS, repeat=k)]
    full = tuple(OPS)
    for base in BASES:
        for task in TASKS:
            for end in ENDS:
                for stale in (False, True):
                    yield base, task, full, end, stale, False
        for task in TASKS:
            if base not in ("default", "context"):
                yield base, task, full, "return", False, True
    for s in seqs:
        for base in ("abs", "none"):
            for end in ENDS:
                yield base, "t", s, end, False, False


def workers(tier, k, n):
    import daisy  # noqa

    res = Result()
    for i, case in enumerate(cases(tier)):
        if i % n != k:
            continue
        res.executions += 1
        res.validated += 1
        res.transitions += 2 * len(case[2])
        bad = run_case(case)
        res.outcome(f"log files of {case[0]}")
        if bad:
            res.violations.append(Violation(P, f"{bad[0]} (log directory {case[0]}, task {case[1]!r}, output {case[2]}, "
                                               f"{case[3]}{', run by a worker' if case[5] else ''})", replay={"func": "mc.logs:replay_case", "args": [list(case)]}, trace=bad))
            if len(res.violations) > 2:
                break
    res.states = res.executions
    return res


def replay_case(case):
    import daisy  # noqa

    res = Result()
    case = (case[0], case[1], tuple(case[2]), case[3], case[4], case[5])
    for w in run_case(case):
        res.violations.append(Violation(P, w))
    return res


# ------------------------------------------------------------------------------------------------------ the summary


class FakeBlock:
    def __init__(self, task_id, n):
        self.task_id = task_id
        self.block_id = (task_id, n)


def summary_case(case):
    """case: (log directory or None, {task: [(block, worker, exception), ...]} as list of pairs)"""
    import daisy
    import daisy.logging
    from daisy.cl_monitor import CLMonitor
    from daisy.server_observer import ServerObservee
    from daisy.task_state import TaskState

    logdir, tasks = case
    bad = []
    daisy.logging.set_log_basedir(logdir)
    server = ServerObservee()
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        monitor = CLMonitor(server)  # noqa
        states = {}
        for t, _ in tasks:
            states[t] = s = TaskState()
            s.total_block_count = 200
            s.ready_count = 200
            server.notify_task_start(t, s)
        # interleaved: one failure of each task at a time
        for row in itertools.zip_longest(*[f for _, f in tasks]):
            for (t, _), f in zip(tasks, row):
                if f is None:
                    continue
                s = states[t]
                s.ready_count -= 1
                s.processing_count += 1
                server.notify_acquire_block(t, s)
                s.processing_count -= 1
                s.failed_count += 1
                server.notify_release_block(t, s)
                n, w, kind = f
                e = {"v": ValueError("bad value"), "k": KeyError("x"), "r": RuntimeError(f"in {n}")}[kind]
                context = daisy.Context(hostname="h", port=1, task_id=t)
                context["worker_id"] = w
                server.notify_block_failure(FakeBlock(t, n), e, context)
        for t, _ in tasks:
            s = states[t]
            s.completed_count += s.ready_count
            s.ready_count = 0
            server.notify_task_done(t, s)
        server.notify_server_exit()
    text = out.getvalue()
    names = "|".join(re.escape(t) for t, _ in tasks)
    parts = re.split(rf"(?m)^\s*Task ({names}):", text)
    secs = dict(zip(parts[1::2], parts[2::2]))
    for t, fails in tasks:
        body = secs.get(t)
        if body is None:
            bad.append(f"the summary does not mention task {t}")
            continue
        lines = body.splitlines()
        bad += judge_failures(t, fails, lines)
        shown = [x.strip() for x in lines if ".err" in x]
        if logdir is None or not fails:
            if shown:
                bad.append(f"the summary of {t} names log files that do not exist: {shown[0]!r}")
        else:
            for n, w, _ in fails[:10]:
                base = str(daisy.logging.get_worker_log_basename(w, t))
                if not any(base + "." in x for x in shown):
                    bad.append(f"the summary of {t} does not name the log files {base}, has {shown}")
            ok = {str(daisy.logging.get_worker_log_basename(w, t)) for _, w, _ in fails}
            for x in shown:
                if not any(b + "." in x for b in ok):
                    bad.append(f"the summary of {t} names {x!r}, which is not the log of a worker that failed")
    return bad


def repr_of(n, kind):
    return repr({"v": ValueError("bad value"), "k": KeyError("x"), "r": RuntimeError(f"in {n}")}[kind])


def judge_failures(t, fails, lines):
    """`lines`: the section of a task in the summary; each failure (up to the first 100) has a line of its own"""
    bad = []
    shown = [x for x in lines if "exception" in x]
    want = fails[:100]
    if len(shown) != len(want):
        bad.append(f"the summary of {t} shows {len(shown)} of {len(fails)} failures")
    for x, (n, w, kind) in zip(shown, want):
        if not re.search(rf"block {n}\b", x) or not re.search(rf"worker {w}\b", x) or repr_of(n, kind) not in x:
            bad.append(f"the summary of {t} has {x.strip()!r} for the failure of block {n} in worker {w} with {repr_of(n, kind)}")
    m = re.search(r"and (\d+) more", "\n".join(lines))
    if len(fails) > 100:
        if m is None or int(m.group(1)) != len(fails) - 100:
            bad.append(f"the summary of {t} with {len(fails)} failures does not tell how many more there are")
    elif m is not None:
        bad.append(f"the summary of {t} tells of more failures than the {len(fails)} there are")
    return bad


def summary_cases(tier):
    depth = 3 if tier == "thorough" else 2
    one = [(n, w, k) for n in (0, 7) for w in (0, 12) for k in "vkr"]
    dirs = ("/nowhere/logs", "logs", None)
    for d in dirs:
        for n in range(depth + 1):
            for fs in itertools.product(one, repeat=n):
                yield d, [("t", list(fs))]
        for f in one:
            for g in one:
                yield d, [("a", [f]), ("b b", [g])]
                yield d, [("a", []), ("b b", [g, f])]
        for n in (5, 9, 10, 11, 12, 99, 100, 101, 102, 150):
            yield d, [("t", [(i, i % 7, "vkr"[i % 3]) for i in range(n)])]
            yield d, [("t", [(i, i, "r") for i in range(n)]), ("u", [(3, 1, "v")])]


def summaries(tier, k, n):
    res = Result()
    for i, case in enumerate(summary_cases(tier)):
        if i % n != k:
            continue
        res.executions += 1
        res.validated += 1
        res.transitions += sum(4 * len(f) for _, f in case[1])
        bad = summary_case(case)
        res.outcome(f"summary of {[len(f) for _, f in case[1]]} failures")
        if bad:
            res.violations.append(Violation(P, bad[0], replay={"func": "mc.logs:replay_summary", "args": [case]}, trace=bad))
            if len(res.violations) > 2:
                break
    res.states = res.executions
    return res


def replay_summary(case):
    res = Result()
    case = (case[0], [(t, [tuple(f) for f in fs]) for t, fs in case[1]])
    for w in summary_case(case):
        res.violations.append(Violation(P, w))
    return res


# -------------------------------------------------------------------------------------------------- logging handlers


class Stream:
    def __init__(self, tty):
        self.tty = tty
        self.text = ""

    def write(self, s):
        self.text += s

    def flush(self):
        pass

    def isatty(self):
        return self.tty


class Memory(logging.Handler):
    """A handler without a stream."""

    def __init__(self):
        super().__init__()
        self.text = ""

    def emit(self, record):
        self.text += self.format(record) + "\n"


KINDS = ("tty", "plain", "memory", "tty-warn", "tty-filter")


def handler_case(kinds, runs):
    from daisy.cl_monitor import CLMonitor
    from daisy.server_observer import ServerObservee

    bad = []
    saved = list(logging.root.handlers), logging.root.level
    logging.disable(logging.NOTSET)
    logging.root.handlers[:] = []
    logging.root.setLevel(logging.INFO)
    hs = []
    try:
        for k in kinds:
            h = Memory() if k == "memory" else logging.StreamHandler(Stream(k.startswith("tty")))
            h.setFormatter(logging.Formatter("[%(levelname)s] %(message)s"))
            if k == "tty-warn":
                h.setLevel(logging.WARNING)
            if k == "tty-filter":
                h.addFilter(lambda r: "secret" not in r.getMessage())
            logging.root.addHandler(h)
            hs.append((k, h))
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            for run in range(runs):
                server = ServerObservee()
                try:
                    monitor = CLMonitor(server)  # noqa
                except Exception as e:
                    return [f"the monitor of run {run} raises {e!r}"]
                if run not in (0, 1, 2, runs - 1) and run % 50:
                    continue
                for lvl, msg in ((logging.INFO, "some news"), (logging.ERROR, "bad news"), (logging.DEBUG, "detail"),
                                 (logging.ERROR, "secret")):
                    for k, h in hs:
                        if k == "memory":
                            h.text = ""
                        else:
                            h.stream.text = ""
                    try:
                        logging.getLogger("some.library").log(lvl, msg)
                    except Exception as e:
                        return [f"logging raises {e!r} after {run + 1} runs with handlers {kinds}"]
                    for k, h in hs:
                        got = h.text if k == "memory" else h.stream.text
                        line = f"[{logging.getLevelName(lvl)}] {msg}"
                        want = 1
                        if lvl == logging.DEBUG or (k == "tty-warn" and lvl == logging.INFO) or (
                                k == "tty-filter" and "secret" in msg):
                            want = 0
                        if got.count(line) != want or got.count(msg) != want:
                            bad.append(f"a record was emitted {got.count(msg)} times (should be {want}) by a handler ({k}) "
                                       f"after {run + 1} runs: {got!r}")
                server.notify_server_exit()
                if bad:
                    break
    finally:
        logging.root.handlers[:] = saved[0]
        logging.root.setLevel(saved[1])
        logging.disable(logging.CRITICAL)
    return bad


def handlers(tier):
    import daisy  # noqa

    res = Result()
    todo = [(c, 3) for n in range(0, 4) for c in itertools.product(KINDS, repeat=n)]
    todo += [(("tty", "plain"), 1200)]
    for kinds, runs in todo:
        res.executions += 1
        res.validated += 1
        res.transitions += runs * 4
        bad = handler_case(kinds, runs)
        res.outcome(f"{len(kinds)} handlers")
        if bad:
            res.violations.append(Violation(P, bad[0], replay={"func": "mc.logs:replay_handlers", "args": [list(kinds), runs]}))
            if len(res.violations) > 2:
                break
    res.states = res.executions
    return res


def replay_handlers(kinds, runs):
    res = Result()
    for w in handler_case(tuple(kinds), runs):
        res.violations.append(Violation(P, w))
    return res
