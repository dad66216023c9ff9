"""C04 and C06 on arbitrary dependency structures: the ready surface on every directed acyclic graph of up to n nodes, with
every order in which nodes succeed or fail."""

from itertools import combinations

from .core import Result, Violation


def explore_dag(n, edges, res):
    from daisy.ready_surface import ReadySurface

    ups = {v: [a for a, b in edges if b == v] for v in range(n)}
    downs = {v: [b for a, b in edges if a == v] for v in range(n)}
    below = {}
    for v in reversed(range(n)):
        below[v] = set(downs[v]).union(*[below[d] for d in downs[v]]) if downs[v] else set()

    def model(hist):
        """status of every node (p: pending, r: ready, s: success, f: failed, o: orphaned)"""
        st = ["r" if not ups[v] else "p" for v in range(n)]
        for v, ok in hist:
            new = step(st, v, ok)
            st = new[0]
        return st

    def step(st, v, ok):
        st = list(st)
        if ok:
            st[v] = "s"
            new = [d for d in downs[v] if st[d] == "p" and all(st[u] == "s" for u in ups[d])]
            for d in new:
                st[d] = "r"
            return st, new
        st[v] = "f"
        new = [d for d in sorted(below[v]) if st[d] != "o"]
        for d in new:
            st[d] = "o"
        return st, new

    def real(hist):
        rs = ReadySurface(lambda x: list(downs[x]), lambda x: list(ups[x]))
        last = None
        for v, ok in hist:
            last = rs.mark_success(v) if ok else rs.mark_failure(v, count_all_orphans=True)
        return rs, last

    seen = set()
    todo = [((), tuple(model(())))]
    while todo:
        hist, st = todo.pop()
        for v in range(n):
            if st[v] != "r":
                continue
            for ok in (True, False):
                h = hist + ((v, ok),)
                nst, want = step(st, v, ok)
                res.transitions += 1
                try:
                    rs, got = real(h)
                    got = sorted(got)
                except Exception as e:
                    bad(res, ("C04", "C06"), n, edges, h, f"raises {e!r}")
                    return
                if got != sorted(want):
                    bad(res, ("C04",) if ok else ("C06",), n, edges, h,
                        f"{'newly ready' if ok else 'orphans'}: {got}, should be {sorted(want)}")
                    return
                key = (tuple(nst), frozenset(getattr(rs, "surface", ())), frozenset(getattr(rs, "boundary", ())))
                if key not in seen:
                    seen.add(key)
                    todo.append((h, tuple(nst)))
    res.states += len(seen) + 1


def bad(res, props, n, edges, hist, what):
    text = ", ".join(f"{v} {'succeeds' if ok else 'fails'}" for v, ok in hist)
    res.violations.append(Violation(props, f"dependencies {list(edges)}: {text}: {what}",
                                    replay={"func": "mc.surface:replay", "args": [n, [list(e) for e in edges]]}))


def replay(n, edges):
    res = Result()
    explore_dag(n, [tuple(e) for e in edges], res)
    return res


def sweep(n, k, parts):
    res = Result()
    try:
        from daisy.ready_surface import ReadySurface

        ReadySurface(lambda x: [], lambda x: []).mark_success
    except (ImportError, AttributeError, TypeError):
        # (an internal class; what it does is also covered through the scheduler)
        res.notes["no ready surface"] = 1
        return res
    pairs = list(combinations(range(n), 2))
    for bits in range(k, 1 << len(pairs), parts):
        edges = [p for i, p in enumerate(pairs) if bits >> i & 1]
        explore_dag(n, edges, res)
        res.executions += 1
        res.validated += 1
        res.outcome(f"{len(edges)} dependencies")
        if len(res.violations) >= 3:
            break
    return res
