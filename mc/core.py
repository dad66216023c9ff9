"""Job pool, watchdogs, evidence and violation reporting shared by all checks.

A check is a list of *jobs*: plain (function, arguments) pairs, each of which exhaustively explores one part of
a bounded space with the real code and returns a :class:`Result`.  Jobs run in forked child processes, so no job
sees what another left behind.
"""

import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

REPO = os.environ.get("DAISY_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation:
    """One observed violation: which properties it breaks, what happened, and how to reproduce it."""

    def __init__(self, props, what, key=None, replay=None, trace=None):
        self.props = tuple(props)
        self.what = what
        self.key = key  # identity for the known-findings file
        self.replay = replay  # {"func":..., "args":...}
        self.trace = trace or []

    def __repr__(self):
        return f"Violation({','.join(self.props)}: {self.what})"


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.executions = 0
        self.validated = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.capped = []
        self.notes = {}

    def outcome(self, key, n=1):
        self.outcomes[key] = self.outcomes.get(key, 0) + n

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.executions += o.executions
        self.validated += o.validated
        for k, v in o.outcomes.items():
            self.outcome(k, v)
        self.samples.extend(o.samples[: max(0, 6 - len(self.samples))])
        self.violations.extend(o.violations)
        self.capped.extend(o.capped)
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v


class Job:
    """``func`` is "module:function"; it is called as function(*args, **kw) in a child process.  It may also return
    a tuple (Result, [Job, ...]) to have more jobs scheduled."""

    def __init__(self, func, *args, cpu=120, wall=300, hang_props=(), label="", **kw):
        self.func = func
        self.args = args
        self.kw = kw
        self.cpu = cpu
        self.wall = wall
        self.hang_props = tuple(hang_props)
        self.label = label

    def spec(self):
        return {"func": self.func, "args": list(self.args), "kw": self.kw}


class JobTimeout(BaseException):
    pass


def resolve(func):
    mod, name = func.split(":")
    return getattr(importlib.import_module(mod), name)


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _read_exact(fd, n):
    buf = b""
    while len(buf) < n:
        chunk = os.read(fd, n - len(buf))
        if not chunk:
            return None
        buf += chunk
    return buf


def _child(rfd, wfd):
    os.setpgid(0, 0)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)

    def onalarm(signum, frame):
        stack = "".join(traceback.format_stack(frame)[-8:])
        raise JobTimeout(("CPU" if signum == signal.SIGVTALRM else "wall") + " limit reached in\n" + stack)

    signal.signal(signal.SIGVTALRM, onalarm)
    signal.signal(signal.SIGALRM, onalarm)
    while True:
        head = _read_exact(rfd, 4)
        if head is None:
            os._exit(0)
        job = pickle.loads(_read_exact(rfd, struct.unpack("I", head)[0]))
        fatal = False
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, job.cpu)
            signal.setitimer(signal.ITIMER_REAL, job.wall)
            try:
                ret = ("ok", resolve(job.func)(*job.args, **job.kw))
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
        except JobTimeout as e:
            ret = ("timeout", str(e))
            fatal = True
        except BaseException:
            ret = ("error", traceback.format_exc())
        try:
            data = pickle.dumps(ret)
        except Exception:
            data = pickle.dumps(("error", "result not picklable\n" + traceback.format_exc()))
        try:
            _write_all(wfd, struct.pack("I", len(data)) + data)
        except OSError:
            os._exit(0)
        if fatal:
            os._exit(0)


class Pool:
    def __init__(self, n):
        self.n = n
        self.procs = {}

    def _spawn(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for p in self.procs.values():
                    for fd in (p["w"], p["r"]):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                _child(r1, w2)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        p = {"pid": pid, "w": w1, "r": r2, "job": None, "t": 0, "kind": None}
        self.procs[r2] = p
        return p

    def _kill(self, p):
        self.procs.pop(p["r"], None)
        for fd in (p["w"], p["r"]):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.killpg(p["pid"], signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(p["pid"], signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(p["pid"], 0)
        except OSError:
            pass

    def run(self, jobs, deadline, on_result):
        """Run all jobs (calls on_result(job, kind, value), which returns (more_jobs, stop)); returns the number of
        jobs not run because the deadline passed."""
        queue = list(reversed(list(jobs)))
        busy = 0
        try:
            while queue or busy:
                now = time.time()
                if now > deadline and queue:
                    left = len(queue) + busy
                    return left
                if now > deadline + 30:
                    return busy
                while queue and busy < self.n:
                    job = queue.pop()
                    # a child only runs jobs of one kind (some replace parts of the standard library)
                    kind = job.func + str(job.kw.get("runner", ""))
                    idle = [p for p in self.procs.values() if p["job"] is None]
                    p = next((p for p in idle if p["kind"] == kind), None)
                    if p is None:
                        if len(self.procs) >= self.n and idle:
                            self._kill(idle[0])
                        p = self._spawn()
                        p["kind"] = kind
                    data = pickle.dumps(job)
                    p["job"], p["t"] = job, now
                    busy += 1
                    try:
                        _write_all(p["w"], struct.pack("I", len(data)) + data)
                    except OSError:
                        pass
                ready, _, _ = select.select([p["r"] for p in self.procs.values() if p["job"]], [], [], 1.0)
                for fd in ready:
                    p = self.procs[fd]
                    head = _read_exact(fd, 4)
                    body = None if head is None else _read_exact(fd, struct.unpack("I", head)[0])
                    job = p["job"]
                    p["job"] = None
                    busy -= 1
                    if body is None:
                        self._kill(p)
                        kind, value = "died", "child process died"
                    else:
                        kind, value = pickle.loads(body)
                        if kind == "timeout":
                            self._kill(p)
                    more, stop = on_result(job, kind, value)
                    if stop:
                        return 0
                    queue.extend(reversed(more))
                now = time.time()
                for p in list(self.procs.values()):
                    if p["job"] is not None and now - p["t"] > p["job"].wall + 20:
                        job = p["job"]
                        busy -= 1
                        self._kill(p)
                        more, stop = on_result(job, "timeout", "wall limit reached (no stack)")
                        if stop:
                            return 0
            return 0
        finally:
            for p in list(self.procs.values()):
                self._kill(p)


def known_findings():
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    fields = dict(kv.split("=", 1) for kv in line[len("finding: "):].split(" ", 2)[:2])
                    out.append((fields["property"], fields["key"], line.split(" ", 3)[3]))
    except FileNotFoundError:
        pass
    return out


def write_replay(prop, v, job):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rec = {
        "property": prop,
        "what": v.what,
        "trace": v.trace,
        "replay": v.replay or (job.spec() if job else None),
    }
    text = json.dumps(rec, indent=1, default=repr)
    path = os.path.join(VERIF, "replays", f"{prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(text)
    return path


def run_check(prop, tier, jobs, *, level, bound, assumptions, budget, nproc=None, level_note=""):
    t0 = time.time()
    total = Result()
    known = {(p, k): text for p, k, text in known_findings()}
    found = []  # (violation, job)
    known_seen = {}
    errors = []
    njobs = [0, 0]

    def on_result(job, kind, value):
        njobs[0] += 1
        more = []
        if kind == "ok":
            if isinstance(value, tuple):
                value, more = value
            total.merge(value)
            vs = value.violations
        elif kind in ("timeout", "died"):
            if kind == "timeout" and prop in job.hang_props:
                vs = [Violation(job.hang_props, f"did not end: {job.label}: {value}", key="hang")]
            else:
                vs = []
                if kind == "timeout":
                    total.capped.append(f"job {job.label or job.func} {job.args!r:.200} hit its time limit")
                else:
                    errors.append(f"{job.label or job.func}: {value}")
        else:
            errors.append(f"{job.label or job.func} {job.args!r:.300}\n{value}")
            vs = []
        stop = False
        for v in vs:
            if prop not in v.props:
                total.notes["violations_of_other_properties"] = total.notes.get("violations_of_other_properties", 0) + 1
                continue
            if v.key is not None and (prop, v.key) in known:
                known_seen.setdefault(v.key, v)
                continue
            found.append((v, job))
            stop = True
        if len(errors) > 20:
            stop = True
        return more, stop

    nproc = nproc or int(os.environ.get("VERIF_NPROC", 0)) or max(2, min(8, os.cpu_count() or 4))
    left = Pool(nproc).run(jobs, t0 + budget, on_result)
    if left:
        total.capped.append(f"time budget of {budget}s reached with {left} jobs left")

    wall = time.time() - t0
    coverage = {
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.validated,
        "executions": total.executions,
        "jobs": njobs[0],
        "distinct_outcomes": len(total.outcomes),
        "outcomes": dict(sorted(total.outcomes.items(), key=lambda kv: -kv[1])[:25]),
        "samples": total.samples[:6] or ["(none)"],
        "bound": bound,
        "exhaustive": not total.capped and not found and not errors,
        "caps_hit": total.capped[:10],
        "notes": total.notes,
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)

    for key, v in known_seen.items():
        print(f"KNOWN-FINDING: property={prop} {known[(prop, key)]}")
    print(
        f"{prop} [{tier}]: {total.states} states, {total.transitions} transitions, {total.executions} executions, "
        f"{total.validated} traces on the real code, {len(total.outcomes)} distinct outcomes, {njobs[0]} jobs, "
        f"{wall:.1f}s{', CAPPED' if total.capped else ''}"
    )
    if found:
        for v, job in found[:3]:
            path = write_replay(prop, v, job)
            print(f"  {v.what}")
            for line in v.trace[-30:]:
                print(f"    {line}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print("CHECK ERROR:", e)
        return 3
    return 0
