"""Registry: which jobs decide which property."""

from .core import Job

GEO_ASSUME = [
    "funlib.geometry and funlib.math are trusted as the arithmetic of ROIs",
    "geometries outside the enumerated universe are not covered; axes are treated independently by the code, so 2-3-D "
    "universes combine representative axes",
]


def prepare(func):
    """Import hooks needed before a replay."""


def geo_jobs(prop):
    def jobs(tier):
        for dims, n in ((1, 16), (2, 8), (3, 8)):
            for k in range(n):
                yield Job("mc.geometry:sweep", prop, dims, tier, k, n, cpu=1200, wall=2400, label=f"{prop} {dims}-D {k}/{n}",
                          hang_props=(prop,))
        if prop in ("C01", "C22"):
            for k in range(8):
                yield Job("mc.geometry:sweep", prop, 9, tier, k, 8, cpu=1200, wall=2400, label=f"{prop} long {k}/8",
                          hang_props=(prop,))
        if prop in ("C01", "C20"):
            for k in range(8):
                yield Job("mc.geometry:sweep", prop, 8, tier, k, 8, cpu=1200, wall=2400, label=f"{prop} deep {k}/8", hang_props=(prop,))
        if prop == "C01":
            yield Job("mc.geometry:huge_sweep", tier, cpu=1200, wall=2400, label="huge volumes", hang_props=(prop,))
        if prop in ("C20", "C22"):
            for k in range(8):
                yield Job("mc.geometry:far_sweep", tier, k, 8, cpu=1200, wall=2400, label=f"far {k}/8", hang_props=(prop,))
        if prop == "C22":
            yield Job("mc.geometry:fresh_processes", tier, cpu=1200, wall=2400, label="fresh processes", hang_props=(prop,))
        if prop in ("C20", "C22"):
            yield Job("mc.geometry:cross_sweep", 0, tier, 0, 1, cpu=1200, wall=2400, label="topologies", hang_props=(prop,))
        if prop == "C20":
            for dims, n in ((1, 16), (2, 8)):
                for k in range(n):
                    yield Job("mc.geometry:cross_sweep", dims, tier, k, n, cpu=1200, wall=2400, label=f"pairs {dims}-D {k}/{n}",
                              hang_props=(prop,))

    return jobs


def c19_jobs(tier):
    for dims, n in ((1, 8), (2, 1), (3, 1)):
        for k in range(n):
            yield Job("mc.geometry:c19_sweep", dims, tier, k, n, cpu=600, wall=1200, label=f"C19 {dims}-D {k}/{n}",
                      hang_props=("C19",))


def sched_jobs(prop):
    def jobs(tier):
        from . import configs

        big = []
        for cfg, kw in configs.exhaustive(tier):
            big.append(Job("mc.sched:explore", cfg.spec(), props=[prop], cpu=1500, wall=3000, label=cfg.name,
                           hang_props=(prop,), **kw))
        # the slow ones first
        first = ("fan5-1", "fan1-5", "chain5-ctx3", "diamond", "chain-offsets", "chain-partial")
        big.sort(key=lambda j: (j.label not in first))
        yield from big
        for k in range(19):
            yield Job("mc.sched:large_sweep", [prop], tier, k, 19, cpu=1500, wall=3000, label=f"large {k}/19", hang_props=(prop,))
        if prop in ("C03", "C04", "C06", "C07"):
            fails = prop in ("C06", "C07")
            for dims, n in ((1, 16), (2, 8)):
                for k in range(n):
                    yield Job("mc.sched:pair_sweep", [prop], dims, tier, k, n, fails=fails, cpu=1500, wall=3000,
                              label=f"pairs {dims}-D {k}/{n}", hang_props=(prop,))
        if prop in ("C04", "C06"):
            for n, parts in ((4, 1), (5, 8)) if tier == "quick" else ((4, 1), (5, 8), (6, 64)):
                for k in range(parts):
                    yield Job("mc.surface:sweep", n, k, parts, cpu=3000, wall=4000, label=f"DAGs of {n} nodes {k}/{parts}",
                              hang_props=(prop,))
        if prop in ("C04", "C05", "C06", "C07", "C08"):
            yield Job("mc.sched:mass_sweep", 2100 if tier == "quick" else 70000, cpu=1500, wall=3000, label="mass", hang_props=(prop,))
        if prop == "C07":
            yield Job("mc.geometry:huge_sweep", tier, cpu=1500, wall=3000, label="huge volumes", hang_props=(prop,))
        if prop in ("C02", "C04", "C05"):
            for dims in (1, 2, 3, 8):
                for k in range(8):
                    yield Job("mc.sched:single_sweep", [prop], dims, tier, k, 8, cpu=1500, wall=3000,
                              label=f"single {dims}-D {k}/8", hang_props=(prop,))

    return jobs


SCHED_BOUND = (
    "all schedules (every order of acquire, release with success or failure, every check answer) of ~40 (50) task graphs with "
    "up to 9 (12) blocks; systematic schedules on every 1-D upstream/downstream pair of a universe of geometries, on 2-D "
    "pairs, and on every single-task geometry of the C01 universe"
)
SCHED_ASSUME = [
    "the server is single-threaded: scheduler operations do not overlap",
    "within a task the dependencies reported by the dependency graph are taken as given; C20 checks that they order all "
    "conflicting blocks, and C02 checks conflicts from the ROIs alone",
    "state matching merges histories that agree in the reference model and in a canonical snapshot of all scheduler data",
]

GEO_BOUND = (
    "1-D: every total shape 1..11 (14), lower/upper context 0..3 (4), write shape 1..3 (4), 4 (15) combinations of total and "
    "read ROI offset, fit x3, conflict x2, plus coordinates of 1e17; 2-D: all pairs of 8 (13) axis kinds; 3-D (4-D): all "
    "triples of 3 (6) axis kinds; volumes with up to 700 blocks, contexts up to 12, write shapes up to 11, and four dimensions "
    "(C01, C22); numbers of blocks of 1,386 volumes with up to 2^54 blocks and their first blocks (C01); the "
    "neighbourhoods of the ends and the middle of such volumes, also 1e3 and 1e6 times as long (C20, C22); thorough bounds in parentheses"
)

CHECKS = {
    "C01": dict(jobs=geo_jobs("C01"), bound=GEO_BOUND, assumptions=GEO_ASSUME),
    "C20": dict(jobs=geo_jobs("C20"), bound=GEO_BOUND, assumptions=GEO_ASSUME),
    "C22": dict(jobs=geo_jobs("C22"), bound=GEO_BOUND, assumptions=GEO_ASSUME),
    "C19": dict(
        jobs=c19_jobs,
        bound="1-D: all ROIs with offset -7..7 (13) and shape 1..6 (11), write shapes 1..4 (7), read offsets x3 (5), total "
        "offsets x4, contexts x3; 2-D and 3-D: all combinations of 6 axis kinds; offsets of 2^60",
        assumptions=GEO_ASSUME[:1],
    ),
}
for _p in ("C02", "C03", "C04", "C05", "C06", "C07", "C08"):
    CHECKS[_p] = dict(jobs=sched_jobs(_p), bound=SCHED_BOUND, assumptions=SCHED_ASSUME)
    if _p in ("C04", "C06"):
        CHECKS[_p]["bound"] += "; the ready surface alone on every directed acyclic graph of up to 5 (6) nodes, all histories"


WORLD_BOUND = (
    "complete distributed runs of the real server, clients, TCP layer and worker pools (1-4 tasks, 1-9 blocks, 1-4 workers) "
    "under a controlled scheduler: all executions with up to 1-2 (2-3) deviations from the default schedule, i.e. every "
    "preemption, early timeout, process death, stop request, and every combination of user code outcomes, at every point; "
    "every set of failing blocks of tasks with 8-9 blocks; crowds of 12 workers; exit codes and signals of dying workers"
)
WORLD_ASSUME = [
    "threads are switched at blocking operations, queue, lock and socket operations and loop steps, not between arbitrary "
    "bytecodes",
    "asyncio's selector loop, sockets, processes and time are simulated (tornado itself is real)",
    "schedules beyond the stated number of deviations are not covered",
]


def world_jobs(prop):
    def jobs(tier):
        from . import worlds

        yield from worlds.jobs(prop, tier)
        if prop == "C13":
            yield from worlds.wire_jobs(tier)

    return jobs


for _p in ("C09", "C10", "C11", "C12", "C13", "C14", "C17", "C21", "C23"):
    CHECKS[_p] = dict(jobs=world_jobs(_p), bound=WORLD_BOUND, assumptions=WORLD_ASSUME)


def address_jobs(prop, tier):
    from . import address

    items = list(address.worlds(tier))
    n = 16
    for k in range(n):
        yield Job("mc.address:multi", items[k::n], [prop], cpu=3000, wall=4000, label=f"address {k}/{n}", hang_props=(prop,))


def serial_jobs(prop, tier):
    from . import serial

    items = list(serial.worlds(tier, prop))
    n = min(24, len(items))
    for k in range(n):
        yield Job("mc.serial:multi", items[k::n], [prop], cpu=3000, wall=4000, label=f"serial {k}/{n}", hang_props=(prop,))


def conv_jobs(prop, tier):
    from . import conv

    for name, spec, budget, total, parts in conv.worlds(tier):
        if prop == "C10" and not name.startswith(("interrupt", "sched", "start-error")):
            continue
        for k in range(parts):
            yield Job("mc.world:explore", spec, budget, total, (k, parts), [prop], name, runner="mc.conv:run_conv", cpu=150 if name.startswith("ladder") else 3000,
                      wall=300 if name.startswith("ladder") else 4000, label=f"run_blockwise {name} {k}/{parts}", hang_props=(prop,))


def multi_jobs(prop, tier):
    from . import multirun

    for name, spec, budget, total, parts, props in multirun.worlds(tier):
        if prop not in props:
            continue
        for k in range(parts):
            yield Job("mc.world:explore", spec, budget, total, (k, parts), [prop], name, runner="mc.multirun:run_multi", cpu=3000,
                      wall=4000, label=f"runs {name} {k}/{parts}", hang_props=(prop,))
    if prop == "C26":
        yield Job("mc.multirun:left_behind", cpu=3000, wall=4000, label="left behind", hang_props=(prop,))


def function_jobs(prop, tier):
    for k in range(16):
        yield Job("mc.functions:sweep", k, 16, cpu=3000, wall=4000, label=f"functions {k}/16", hang_props=(prop,))


def pool_jobs(prop, tier):
    from . import pool

    for name, spec, budget, parts in pool.worlds(tier):
        if prop == "C18" and name != "context":
            continue
        for k in range(parts):
            yield Job("mc.world:explore", spec, budget, None, (k, parts), [prop], name, runner="mc.pool:run_pool", cpu=3000,
                      wall=4000, label=f"pool {name} {k}/{parts}", hang_props=(prop,))


def client_jobs(prop, tier):
    from . import clientw

    for name, spec, budget, parts in clientw.worlds(tier):
        for k in range(parts):
            yield Job("mc.world:explore", spec, budget, None, (k, parts), [prop], name, runner="mc.clientw:run_client", cpu=3000,
                      wall=4000, label=f"client {name} {k}/{parts}", hang_props=(prop,))


def keeper_jobs(prop, tier):
    if prop == "C21":
        yield Job("mc.bookkeeper:task_timeout", cpu=600, wall=900, label="task timeout")
    n = 64 if tier == "thorough" else 4
    for to in (None, 1.0) if prop == "C21" else (None,):
        for k in range(n):
            yield Job("mc.bookkeeper:sequences", 6 if tier == "thorough" else 5, 2, 2, to, (k, n), cpu=3000, wall=4000,
                      label=f"bookkeeper {to} {k}/{n}", hang_props=(prop,))


def context_jobs(prop, tier):
    for kind, n, parts in (("pairs", 2, 4), ("keys", 2 if tier == "quick" else 3, 4), ("values", 3, 4), ("chars", 1, 2)):
        for k in range(parts):
            yield Job("mc.contextw:sweep", kind, n, k, parts, cpu=3000, wall=4000, label=f"{kind} {k}/{parts}",
                      hang_props=(prop,))
    parts = 16 if tier == "thorough" else 4
    for k in range(parts):
        yield Job("mc.contextw:sequences", 4 if tier == "thorough" else 3, k, parts, cpu=3000, wall=4000,
                  label=f"sequences {k}/{parts}", hang_props=(prop,))


def logs_jobs(prop, tier):
    for k in range(8):
        yield Job("mc.logs:workers", tier, k, 8, cpu=3000, wall=4000, label=f"worker output {k}/8", hang_props=(prop,))
    for k in range(2):
        yield Job("mc.logs:summaries", tier, k, 2, cpu=3000, wall=4000, label=f"summaries {k}/2", hang_props=(prop,))
    yield Job("mc.logs:handlers", tier, cpu=600, wall=900, label="log handlers", hang_props=(prop,))


def both(*fs):
    def jobs(prop):
        def gen(tier):
            for f in fs:
                yield from f(prop, tier)

        return gen

    return jobs


_w = lambda prop, tier: world_jobs(prop)(tier)
_s = lambda prop, tier: sched_jobs(prop)(tier)
SERIAL_BOUND = (
    "complete serial runs of the real SerialServer (and run_blockwise) on ~40 (50) task graphs: all combinations of what the "
    "process function does per attempt (succeed, mark as failed, and with small graphs 4 more ways) and of the check "
    "function's answers; on graphs with more than 6 blocks up to 4 (5) deviations"
)
SERIAL_ASSUME = ["a process function that raises in a serial run ends the run by design and is not covered"]
CONV_BOUND = (
    "complete run_blockwise calls with multiprocessing on 8 graph shapes, with every given list of a set of permutations, "
    "subsets and duplicates, 1 (2) block faults, all 16 check answers, an interrupt at every point, 1 (2) schedule deviations"
)
POOL_BOUND = (
    "all sequences of 4 (5) worker pool operations (resize to 0-3, crash, error, normal exit, reap, check, stop), also "
    "with 15 ways to exit and when 8, 9 or 98 workers came before, and all "
    "schedules with 2 (3) deviations of 2-3 concurrent resizes, of one pool or two"
)
CLIENT_BOUND = (
    "all combinations over 2 (3) blocks of ~20 ways for user code to leave the acquire_block context, all schedules with 1 "
    "deviation for each, and the server dying at every point or closing at every request"
)
ADDRESS_BOUND = (
    "server start-up with 4 kinds of default route, host given or not, up to 3 (4) failing, hanging or wrongly answering network "
    "calls among all it makes, 0-5 and 900-1000 failing attempts to get a port, 1-1000 attempts allowed, several "
    "servers one after the other"
)
KEEPER_BOUND = "all sequences of 5 (6) bookkeeper operations on 2 blocks and 2 streams, with and without timeout"
CONTEXT_BOUND = (
    "all keys and values of up to 2-3 characters over an alphabet with all delimiters, unicode, blanks, and other types, in "
    "all ways of giving them, and all sequences of 3 (4) operations on two contexts"
)

LOGS_BOUND = (
    "two real worker processes for all sequences of 2 (3) of 7 ways to write output, 3 ways to end, 6 log directories and 4 "
    "task names; summaries of all histories of 2 (3) failures of 12 kinds in 1-2 tasks and of 5-150 failures; all "
    "combinations of up to 3 of 5 kinds of log handlers, up to 1200 runs"
)

MULTI_BOUND = (
    "sequences of 2-4 runs in one process (distributed, serial, with a server of its own; 4 task graphs, the same task objects, "
    "new ones, or others of the same names) with 1-2 (2-4) faults, a worker crash or interrupt at every point, 1 (2) schedule "
    "deviations, and check functions that know what earlier runs did"
)
FUNCTION_BOUND = (
    "all combinations of 17 kinds of callables, 0-3 arguments and 8 names of the first one, in complete distributed and serial runs, "
    "callables with a state of their own"
)
for _p in ("C02", "C03", "C04", "C05", "C06", "C07", "C08"):
    _fs = (_s, _w) if _p == "C02" else (_s, serial_jobs, _w) if _p != "C08" else (_s, serial_jobs, _w, multi_jobs)
    CHECKS[_p]["jobs"] = both(*_fs)(_p)
    CHECKS[_p]["bound"] += "; " + ("; ".join([SERIAL_BOUND, WORLD_BOUND]) if _p != "C02" else WORLD_BOUND)
    if _p == "C08":
        CHECKS[_p]["bound"] += "; " + MULTI_BOUND
    CHECKS[_p]["assumptions"] = SCHED_ASSUME + (SERIAL_ASSUME if _p != "C02" else []) + WORLD_ASSUME
for _p, _fs, _b, _a in (
    ("C09", (_w, keeper_jobs), [WORLD_BOUND, KEEPER_BOUND], WORLD_ASSUME),
    ("C10", (_w, conv_jobs), [WORLD_BOUND, CONV_BOUND], WORLD_ASSUME),
    ("C12", (_w, client_jobs), [WORLD_BOUND, CLIENT_BOUND], WORLD_ASSUME),
    ("C14", (_w, pool_jobs), [WORLD_BOUND, POOL_BOUND], WORLD_ASSUME),
    ("C15", (serial_jobs,), [SERIAL_BOUND], SERIAL_ASSUME),
    ("C16", (serial_jobs, conv_jobs), [SERIAL_BOUND, CONV_BOUND], SERIAL_ASSUME + WORLD_ASSUME),
    ("C17", (_w, serial_jobs, conv_jobs), [WORLD_BOUND, SERIAL_BOUND, CONV_BOUND], WORLD_ASSUME + SERIAL_ASSUME),
    ("C18", (context_jobs, pool_jobs), [CONTEXT_BOUND], ["texts with NUL characters, which no environment variable can hold, "
                                                         "are not covered"]),
    ("C24", (logs_jobs, conv_jobs), [LOGS_BOUND, CONV_BOUND], WORLD_ASSUME),
    ("C25", (address_jobs, _w), [ADDRESS_BOUND, WORLD_BOUND], WORLD_ASSUME + ["the machine's network is simulated"]),
    ("C27", (function_jobs,), [FUNCTION_BOUND], WORLD_ASSUME),
    ("C26", (multi_jobs,), [MULTI_BOUND], WORLD_ASSUME),
    ("C21", (_w, keeper_jobs), [WORLD_BOUND, KEEPER_BOUND], WORLD_ASSUME),
):
    CHECKS[_p] = dict(jobs=both(*_fs)(_p), bound="; ".join(_b), assumptions=_a)


_GEO_T = "exhaustive enumeration of task geometries on the real dependency graph, against an independent set-based model"
_SCHED_T = "explicit-state model checking of the real Scheduler: all operation sequences, in lockstep with a reference model"
_WORLD_T = (
    "stateless model checking of the real server, client, TCP and worker pool code under a controlled scheduler with fault "
    "injection (all schedules with a bounded number of deviations)"
)
for _p, _c in CHECKS.items():
    if _p in ("C01", "C19", "C20", "C22"):
        _c.setdefault("technique", _GEO_T)
    elif _p in ("C02", "C03", "C04", "C05", "C06", "C07", "C08"):
        _c.setdefault("technique", _SCHED_T)
    elif _p == "C15":
        _c.setdefault("technique", "stateless model checking of the real serial server: all outcome histories, against a reference model")
    elif _p == "C24":
        _c.setdefault("technique", "exhaustive enumeration of output histories of real worker processes and of failure histories, "
                                   "and stateless model checking of complete runs under a controlled scheduler")
    elif _p == "C27":
        _c.setdefault("technique", "exhaustive enumeration of callables, each in complete runs of the real code under a controlled "
                                   "scheduler")
    elif _p == "C18":
        _c.setdefault("technique", "exhaustive enumeration of contexts and of operation sequences on the real Context, through the "
                                   "environment of a worker")
    else:
        _c.setdefault("technique", _WORLD_T)
    _c.setdefault("note", "Exhaustive within: " + _c["bound"] + ". Assumes: " + "; ".join(_c["assumptions"]) + ".")
