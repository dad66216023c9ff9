"""C27: every kind of callable as a process function, in complete runs (distributed and serial)."""

import functools

from . import simnet, world
from .conv import ConvWorld
from .core import Result, Violation

NOTES = []


def do(tag, args):
    """What all process functions of this module do."""
    NOTES.append((tag, len(args)))
    if len(args) == 1:
        world.W.work(args[0])
    elif not args:
        world.spawn()


_DO = "__import__('mc.functions', fromlist=['x']).do"
NAMES = ("block", "b", "self", "cls", "this", "context", "x", "task_id")


def make(src, env=None):
    env = dict(env or {})
    exec(src, env)
    return env["f"]


def callables():
    """(name, function that makes it, number of arguments it has to be called with)"""
    for n in range(4):
        for first in NAMES if n == 1 else ("block", "self") if n else ("-",):
            ps = ([first] + ["p%d" % i for i in range(1, n)]) if n else []
            sig, tup = ", ".join(ps), "(" + "".join(p + ", " for p in ps) + ")"
            yield f"def f({sig})", lambda s=sig, t=tup: make(f"def f({s}):\n    {_DO}('v', {t})"), n
            yield f"lambda {sig}", lambda s=sig, t=tup: make(f"f = lambda {s}: {_DO}('v', {t})"), n
            yield (f"closure ({sig})",
                   lambda s=sig, t=tup: make(f"def g(v):\n    def f({s}):\n        {_DO}(v, {t})\n    return f\nf = g('v')"), n)
            yield f"def f({sig}) keyword-only option", (
                lambda s=sig, t=tup: make(f"def f({s + ', ' if s else ''}*, v='v'):\n    {_DO}(v, {t})")), n
            yield f"static method ({sig})", (
                lambda s=sig, t=tup: make(f"class C:\n    @staticmethod\n    def m({s}):\n        {_DO}('v', {t})\nf = C.m")), n
            yield f"partial by position ({sig})", (
                lambda s=sig, t=tup: make(f"import functools\ndef g(v, {s}):\n    {_DO}(v, {t})\nf = functools.partial(g, 'v')")), n
            yield f"partial by keyword ({sig})", (
                lambda s=sig, t=tup: make(f"import functools\ndef g({s + ', ' if s else ''}v):\n    {_DO}(v, {t})\n"
                                          "f = functools.partial(g, v='v')")), n
            yield f"wrapped ({sig})", (
                lambda s=sig, t=tup: make(f"import functools\ndef g({s}):\n    {_DO}('v', {t})\n@functools.wraps(g)\n"
                                          f"def f({s}):\n    return g({s})")), n
            yield f"wrapped with *args ({sig})", (
                lambda s=sig, t=tup: make(f"import functools\ndef g({s}):\n    {_DO}('v', {t})\n@functools.wraps(g)\n"
                                          "def f(*args, **kwargs):\n    return g(*args, **kwargs)")), n
            # a decorator that hides or adds arguments
            yield f"start function that wraps a block function ({sig})", (
                lambda s=sig: make(f"import functools\ndef g({s}):\n    pass\n@functools.wraps(g)\ndef f():\n    {_DO}('v', ())")), 0
            yield f"block function that wraps another ({sig})", (
                lambda s=sig: make(f"import functools\ndef g({s}):\n    pass\n@functools.wraps(g)\ndef f(block):\n    {_DO}('v', (block,))")), 1
        for me in ("self", "this", "cls", "_"):
            for first in ("block", "b", "x") if n == 1 else ("block",) if n else ("-",):
                ps = ([first] + ["p%d" % i for i in range(1, n)]) if n else []
                sig, tup = ", ".join([me] + ps), "(" + "".join(p + ", " for p in ps) + ")"
                cls = f"class C:\n    def __init__(self, v):\n        self.v = v\n    def m({sig}):\n        {_DO}({me}.v, {tup})\n"
                yield f"method ({sig})", lambda c=cls: make(c + "f = C('v').m"), n
                yield f"partial of method ({sig})", lambda c=cls: make(c + "import functools\nf = functools.partial(C('v').m)"), n
                yield f"callable object ({sig})", lambda c=cls: make(c + "C.__call__ = C.m\nf = C('v')"), n
                yield f"inherited method ({sig})", lambda c=cls: make(c + "class D(C):\n    pass\nf = D('v').m"), n
                cm = f"class C:\n    v = 'v'\n    @classmethod\n    def m({sig}):\n        {_DO}({me}.v, {tup})\n"
                yield f"class method ({sig})", lambda c=cm: make(c + "f = C.m"), n
                yield f"class method of object ({sig})", lambda c=cm: make(c + "f = C().m"), n


def one(name, mk, n, how, res, before=None):
    from .configs import g1
    from .sched import TaskSpec as T
    from .worlds import W

    import daisy

    spec = W(T("A", g1(2)), give=["A"])
    rep = {"func": "mc.functions:replay", "args": [name, how]}

    def bad(what, trace=()):
        res.violations.append(Violation(("C27",), f"{name}, {how}: {what}", trace=list(trace), replay=rep))

    st = world.static_of(spec)
    w = ConvWorld(spec, st, (), True)
    w.how = how
    NOTES.clear()
    refused = []

    class Build:
        """(the configuration of the world, with this process function)"""

        def build(self, check=None, process=None, extra=None):
            fn = mk()
            try:
                return st_build(check=check, process={"A": fn}, extra=extra)
            except ValueError as e:
                refused.append(e)
                raise

    st_build = st.cfg.build
    res.executions += 1
    res.validated += 1
    orig = st.cfg
    st.cfg = Build()
    try:
        w.main = functools.partial(main, w, how, before)
        w.run()
    except ValueError:
        if not refused:
            raise
    except TypeError as e:
        bad(f"creating the task raises {e!r}")
        return
    finally:
        st.cfg = orig
    res.transitions += w.eng.steps
    res.outcome("refused" if refused else f"accepted, {n} arguments")
    if refused:
        if n <= 1:
            bad(f"the task refuses it: {refused[0]}")
        return
    if n > 1:
        bad("the task accepts a function that it can not call")
        return
    kind, val = w.result
    if kind != "ok":
        bad(f"the run does not end well: {kind} {val!r}", w.eng.log)
        return
    for pr, what in w.viol:
        bad(what, w.eng.log)
        return
    want = [("v", 1)] * 2 if n == 1 else [("v", 0)]
    if NOTES != want:
        bad(f"it was called {NOTES}, expected {want}", w.eng.log)


def main(w, how, before=None):
    import contextlib
    import io

    import daisy

    w.main_actor = w.eng.main_proc.threads[0]
    if before is not None:
        before(w)
    out = io.StringIO()
    w.in_server = True
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            res = daisy.run_blockwise([w.tasks["A"]], multiprocessing=how == "distributed")
    finally:
        w.in_server = False
        w.t_end = w.eng.now
        w.alive_at_end = [p for p in w.eng.procs[1:] if p.alive]
        w.text = out.getvalue()
    if how != "distributed":
        res = all(s.completed_count == s.total_block_count for s in res.values())
    return res


STATE = """
class C:
    def __init__(self):
        self.v = 'made'
        self.seen = []
    def m(self, block):
        self.seen.append(tuple(block.write_roi.begin))
        %s(self.v, (block,))
    def start(self):
        %s(self.v, ())
    __call__ = m
o = C()
f = %%s
""" % (_DO, _DO)


def stateful():
    """Functions that belong to an object: (name, function that makes it, arguments)"""
    for name, expr, n in (("method", "o.m", 1), ("callable object", "o", 1), ("closure", "lambda block: o.m(block)", 1),
                          ("partial", "__import__('functools').partial(o.m)", 1), ("start method", "o.start", 0)):
        def mk(e=expr):
            env = {}
            exec(STATE % e, env)
            return env
        yield "function with state: " + name, mk, n


def one_stateful(name, mk, n, how, res):
    """The object of a process function is used as it is when the run starts, and itself in a serial run."""
    env = mk()
    o = env["o"]

    def touch(w):
        # (after the task was made, before the run)
        o.v = "v"

    one(name, lambda: env["f"], n, how, res, before=touch)
    if how == "serial" and sorted(o.seen) != [(0,), (1,)]:
        res.violations.append(Violation(("C27",), f"{name}, {how}: the object that was given has not been used, it saw {o.seen}",
                                        replay={"func": "mc.functions:replay", "args": [name, how]}))


def sweep(k, n):
    simnet.install()
    res = Result()
    if k == 0:
        for name, mk, args in stateful():
            one_stateful(name, mk, args, "distributed", res)
            if args == 1:
                one_stateful(name, mk, args, "serial", res)
    for i, (name, mk, args) in enumerate(callables()):
        if i % n != k:
            continue
        one(name, mk, args, "distributed", res)
        if args == 1:
            one(name, mk, args, "serial", res)
        if len(res.violations) > 20:
            break
    return res


def replay(name, how):
    simnet.install()
    res = Result()
    for nm, mk, args in callables():
        if nm == name:
            one(nm, mk, args, how, res)
    for nm, mk, args in stateful():
        if nm == name:
            one_stateful(nm, mk, args, how, res)
    return res
