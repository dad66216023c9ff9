"""C18: all contexts over an alphabet of awkward texts, and all short sequences of operations on a context and its copy."""

import itertools
import os

from .core import Result, Violation

CHARS = ["a", "=", ":", " ", "\n", "%", "\\", "ü", "0", "\t", "'", ",", "\r", "\u2028"]


def char_texts():
    """Every character of the first blocks of unicode, and some others, at every position."""
    for c in itertools.chain(range(1, 0x250), (0x2000, 0x200B, 0x2028, 0x3000, 0xFEFF, 0xFFFD, 0x1F600)):
        c = chr(c)
        for t in (c, c + "a", "a" + c, "a" + c + "a", c + c):
            yield t
    # what is found in context values: paths, URLs, shell syntax
    for t in ("/", "//", "/tmp/x/", "../x", "./a/b.zarr/", "~", "$HOME", "${a}", "`a`", "a;b", "a&b", "a|b", '"a"', "a#b", "a?b",
              "None", "True", "1.0", "1e3", "007", "0x10", "-1", "[1, 2]", "{}", "x" * 300, "host-1.example.org", "*", "a,b,c"):
        yield t


def texts(n):
    yield ""
    for k in range(1, n + 1):
        for t in itertools.product(CHARS, repeat=k):
            yield "".join(t)


class Path:
    def __str__(self):
        return "/some/path"


class BadText:
    def __str__(self):
        return "a=b:c"


OTHER = [0, -1, 3.5, None, True, (1, 2), [1, "a"], b"x", Path(), BadText(), {"a": 1}, 10**20]


def recover(env):
    """What a worker makes of it."""
    import daisy

    var = daisy.Context.ENV_VARIABLE
    old = os.environ.get(var)
    try:
        os.environ[var] = env
        return daisy.Context.from_env()
    finally:
        if old is None:
            os.environ.pop(var, None)
        else:
            os.environ[var] = old


def judge(c, want, bad, how):
    """want: {key: value}; c: a context that was accepted."""
    try:
        r = recover(c.to_env())
    except Exception as e:
        return bad(f"{how} is accepted, but recovering it raises {e!r}")
    for k, v in want.items():
        k = str(k)
        try:
            got = r[k]
        except KeyError:
            bad(f"{how} is accepted, but key {k!r} is lost")
            continue
        if not isinstance(got, str):
            bad(f"{how}: {k!r} is recovered as {got!r}, not as text")
        elif got != str(v):
            bad(f"{how}: {k!r}={str(v)!r} is recovered as {got!r}")
        if r.get(k) != got:
            bad(f"{how}: get({k!r}) gives {r.get(k)!r}")
    # nothing is made up
    for tok in ("hostname", "port", "a", "", "0"):
        if tok not in {str(k) for k in want} and r.get(tok) is not None:
            bad(f"{how}: key {tok!r} appears from nowhere as {r.get(tok)!r}")


def good(t):
    return "=" not in str(t) and ":" not in str(t)


def sweep(kind, n, k, parts):
    import daisy

    daisy.logging.set_log_basedir(None) if hasattr(daisy, "logging") else None
    res = Result()

    def bad_of(args):
        def bad(what):
            if len(res.violations) < 5:
                res.violations.append(Violation(("C18",), what, replay={"func": "mc.contextw:one", "args": [kind] + args}))
        return bad

    if kind == "pairs":
        # every key with every value, both ways of giving them
        items = itertools.product(texts(n - 1), itertools.chain(texts(n), OTHER))
    elif kind == "keys":
        items = itertools.product(itertools.chain(texts(n + 1)), ["v", "", 1])
    elif kind == "chars":
        items = itertools.chain(((t, "v") for t in char_texts()), (("k", t) for t in char_texts()))
    elif kind == "values":
        items = itertools.product(["k"], texts(n + 1))
    else:
        items = itertools.product(texts(2), texts(2))
    for i, (a, b) in enumerate(items):
        if i % parts != k:
            continue
        res.executions += 1
        res.validated += 1
        one_case(kind, a, b, bad_of([a, b if isinstance(b, (str, int)) else str(b)]), res)
        if len(res.violations) >= 3:
            break
    res.states = res.executions
    res.transitions = res.executions
    return res


def one_case(kind, a, b, bad, res):
    import daisy

    ok = good(a) and good(b)
    if kind == "logdir":
        pass
    for how in ("constructor", "assignment"):
        try:
            if how == "constructor":
                if str(a) == "self":
                    continue
                c = daisy.Context(**{a: b})
            else:
                c = daisy.Context(first="1")
        except TypeError:
            if a == "logdir":
                continue
            bad(f"{how} {a!r}={b!r} raises TypeError")
            continue
        except Exception:
            if ok:
                bad(f"{how} {a!r}={b!r} is refused")
            res.outcome("refused") if res else None
            continue
        want = {a: b}
        if how == "assignment":
            want = {"first": "1"}
            try:
                c[a] = b
                want[a] = b
                if good(a) and good(b) is False:
                    pass
            except Exception:
                if ok:
                    bad(f"{how} {a!r}={b!r} is refused")
                res.outcome("refused") if res else None
                if c.get(str(a)) is not None and str(a) != "first" and str(a) != "logdir":
                    bad(f"{how} {a!r}={b!r} is refused, but changes the context")
        judge(c, want, bad, f"{how} {a!r}={b!r}")
        res.outcome("accepted") if res else None
        d = c.copy()
        d["probe of the copy"] = "1"
        d[a if good(a) else "q"] = "changed"
        if c.get("probe of the copy") is not None or (a in want and str(c.get(a)) != str(b)) or c.get("q") is not None and a != "q":
            bad(f"changing a copy of {how} {a!r}={b!r} changes the original")


def one(kind, a, b):
    res = Result()
    one_case(kind, a, b, lambda w: res.violations.append(Violation(("C18",), w)), None)
    return res


# ---- sequences of operations on a context and its copy

SOPS = [("set", 0, "a", "1"), ("set", 0, "b", "2"), ("set", 1, "a", "3"), ("set", 1, "c", ""), ("set", 0, "x", "p=q"),
        ("set", 1, 7, 8), ("copy", 0, 1), ("copy", 1, 0), ("env", 0, 1), ("env", 1, 0), ("set", 0, "u:v", "1"),
        ("mutate", 0), ("mutate", 1)]


def run_ops(seq):
    import daisy

    bad = []
    c = [daisy.Context(a="0", l=[1]), daisy.Context(port=5)]
    m = [{"a": "0", "l": "[1]"}, {"port": "5"}]
    for op in seq:
        if op[0] == "set":
            try:
                c[op[1]][op[2]] = op[3]
                if not (good(op[2]) and good(op[3])):
                    m[op[1]][str(op[2])] = str(op[3])
                else:
                    m[op[1]][str(op[2])] = str(op[3])
            except Exception:
                if good(op[2]) and good(op[3]):
                    bad.append(f"{op} is refused")
        elif op[0] == "copy":
            c[op[2]] = c[op[1]].copy()
            m[op[2]] = dict(m[op[1]])
        elif op[0] == "env":
            c[op[2]] = recover(c[op[1]].to_env())
            m[op[2]] = dict(m[op[1]])
        elif op[0] == "mutate":
            v = c[op[1]].get("l")
            if isinstance(v, list):
                v.append(2)
                m[op[1]]["l"] = str(v)
        for i in (0, 1):
            for k in ("a", "b", "c", "7", "x", "port", "l", "u:v"):
                got = c[i].get(k)
                if (None if got is None else str(got)) != m[i].get(k):
                    bad.append(f"context {i}: {k!r} is {got!r}, should be {m[i].get(k)!r}")
        if bad:
            break
    if not bad:
        for i in (0, 1):
            judge(c[i], m[i], bad.append, f"context {i}")
    return bad


def sequences(depth, k, parts):
    import daisy

    daisy.logging.set_log_basedir(None)
    res = Result()
    for n in range(1, depth + 1):
        for i, seq in enumerate(itertools.product(SOPS, repeat=n)):
            if i % parts != k:
                continue
            res.executions += 1
            res.validated += 1
            res.transitions += n
            b = run_ops(seq)
            if b:
                res.violations.append(Violation(("C18",), f"{b[0]} after {seq}",
                                                replay={"func": "mc.contextw:replay_ops", "args": [[list(o) for o in seq]]}))
                if len(res.violations) > 2:
                    return res
    res.states = res.executions
    res.outcome("sequences", res.executions)
    return res


def replay_ops(seq):
    res = Result()
    for w in run_ops([tuple(o) for o in seq]):
        res.violations.append(Violation(("C18",), w, trace=[str(o) for o in seq]))
    return res
