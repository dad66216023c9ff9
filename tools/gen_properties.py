"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe),
            hook_needed=hook,
        ),
    ))


prop("C01", "A task's blocks tile its total ROI exactly as the fit mode promises",
     "For every task geometry (any number of dimensions, total ROI, read/write ROI with the read ROI containing the write ROI, and both settings of read_write_conflict) the blocks of the task have pairwise disjoint write ROIs, every one a shifted copy of the task's read/write ROI pair (cut to the volume in 'shrink' mode only, keeping the context) on the grid that starts at the beginning of the volume. "
     "'valid' yields exactly the grid blocks that lie inside the total ROI, 'overhang' exactly those that start inside the total ROI minus context, 'shrink' the same ones cut so that read and write ROI lie inside; a total ROI too small for any block yields zero blocks. "
     "The number of blocks reported for the task equals the number of blocks that exist.",
     ["inputs", "configurations"], "all total/read/write ROIs (1-D to 3-D, any offsets), all three fit modes, conflict on and off",
     "tests check the block count of six 1-D geometries and a handful of 2-D ones; they never compare the set of ROIs, use no context asymmetry, no 3-D, no volume smaller than a block",
     ["daisy/dependency_graph.py", "daisy/block.py", "daisy/task.py"],
     [("level offsets and per-level block offsets", "daisy/dependency_graph.py: _compute_level_block_offsets, level_blocks"),
      ("fit handling", "daisy/dependency_graph.py: inclusion_criteria, fit_block, shrink, rounding_term"),
      ("block counting", "daisy/dependency_graph.py: num_blocks, _num_level_blocks")],
     observe=["Scheduler.acquire_block", "BlockwiseDependencyGraph.enumerate_all_dependencies", "TaskState.total_block_count"])

prop("C02", "Concurrently handed-out blocks of a task never read/write conflict",
     "For a task with read_write_conflict enabled, whatever the order in which blocks are requested, completed, failed, retried or skipped, at no time are two blocks of the task outstanding (handed out and not yet released) such that the read ROI of one overlaps the write ROI of the other. "
     "A block is also never handed out again while it is still outstanding.",
     ["schedules", "inputs", "histories"], "all acquire/release interleavings and outcomes, all geometries and fit modes",
     "tests run one fixed acquire order on a 4x4 grid; conflicts depend on geometry (stride rounding, asymmetric context, clipped strides) and on which blocks happen to be outstanding together",
     ["daisy/dependency_graph.py", "daisy/ready_surface.py", "daisy/scheduler.py"],
     [("level decomposition and conflict offsets", "daisy/dependency_graph.py: compute_level_stride, compute_level_offsets, compute_level_conflicts, get_conflict_offsets"),
      ("release of dependents only when all upstream blocks are done", "daisy/ready_surface.py: mark_success")],
     observe=["Scheduler.acquire_block", "Scheduler.release_block"])

prop("C03", "No block is handed out before every upstream block it reads from is done",
     "If a task lists upstream tasks, a block of it is handed out only after every block of those upstream tasks whose write ROI overlaps the block's read ROI has completed successfully (processed or skipped). "
     "This holds for every combination of geometries, fit modes and schedules, for chains, fans and diamonds of tasks.",
     ["schedules", "inputs", "configurations"], "all pairs of upstream/downstream geometries, all task DAGs, all interleavings of the tasks' blocks",
     "tests cover two 2-task chains with equal block grids and symmetric context under one schedule",
     ["daisy/dependency_graph.py", "daisy/ready_surface.py", "daisy/scheduler.py"],
     [("inter-task dependency lookup", "daisy/dependency_graph.py: DependencyGraph.upstream/downstream, get_subgraph_blocks"),
      ("ready surface", "daisy/ready_surface.py: mark_success")],
     observe=["Scheduler.acquire_block"])

prop("C04", "Scheduling makes progress: each block becomes available as soon as it may run",
     "A block becomes available for hand-out exactly when its last dependency completes (blocks without any dependency are available from the start, including those of tasks with upstream tasks), and each block is made available once. "
     "Hence, whatever the schedule, as long as some block is neither completed, failed nor orphaned, a block is available or outstanding, and if no block fails every block of every task (including upstream tasks only reachable through dependencies) is eventually processed exactly once. "
     "With read_write_conflict disabled all blocks of a task without upstream tasks are available at once.",
     ["schedules", "inputs", "configurations"], "all schedules, geometries and task DAGs",
     "a lost wake-up only shows for particular geometries (asymmetric context, non-covered regions, overhang) and particular completion orders; tests drain two geometries in one order",
     ["daisy/scheduler.py", "daisy/ready_surface.py", "daisy/dependency_graph.py", "daisy/processing_queue.py"],
     [("roots and ready queue", "daisy/dependency_graph.py: roots; daisy/processing_queue.py: get_next"),
      ("surface bookkeeping", "daisy/ready_surface.py: mark_success")],
     observe=["Scheduler.acquire_block", "Scheduler.get_ready_tasks", "TaskState.ready_count"])

prop("C05", "A failing block is attempted exactly max_retries + 1 times",
     "A block that fails is handed out again, available immediately and with the same ID and ROIs, until it either succeeds or has failed max_retries + 1 times; only then does it count as failed, and it is never handed out again. "
     "Failures of one block never use up retries of another, and a block that succeeds on a retry counts as completed just like one that succeeded at once.",
     ["histories", "schedules", "configurations"], "all success/failure histories of all blocks, all max_retries, all interleavings with other blocks",
     "one test with one history (fail, succeed, fail x3) and blocks processed one at a time",
     ["daisy/scheduler.py", "daisy/processing_queue.py", "daisy/serial_server.py"],
     [("retry counter and requeue", "daisy/scheduler.py: release_block; daisy/processing_queue.py: block_retries")],
     observe=["Scheduler.acquire_block", "Scheduler.release_block", "TaskState.failed_count"])

prop("C06", "A permanent failure orphans exactly the blocks that depend on it, each once",
     "When a block fails permanently, exactly the not yet started blocks that (transitively, within and across tasks) depend on it are orphaned: they are never handed out, and each is counted as orphaned exactly once however many of its ancestors fail and in whatever order. "
     "All other blocks are still processed, so that once nothing is available or outstanding, completed + failed + orphaned equals the total for every task and every task reports to be done.",
     ["histories", "schedules", "inputs"], "all failure patterns, orders and dependency shapes",
     "two tests fail everything or one block in a single task; double counting and missed orphans depend on the order of failures and successes around a shared dependent",
     ["daisy/ready_surface.py", "daisy/scheduler.py", "daisy/task_state.py"],
     [("boundary of failed and orphaned nodes", "daisy/ready_surface.py: mark_failure, mark_success"),
      ("orphan counting", "daisy/scheduler.py: release_block")],
     observe=["TaskState.orphaned_count", "TaskState.is_done", "Scheduler.acquire_block"])

prop("C07", "Task state counters always match what happened to the task's blocks",
     "After every operation the reported state of each task agrees with the history: ready, processing, completed, skipped, failed, orphaned and pending counts are the numbers of blocks in these conditions, they are never negative and (skipped being part of completed) sum up to the total. "
     "A task is reported done if and only if no block of it is pending, ready or processing.",
     ["histories", "schedules"], "all operation sequences with all outcomes",
     "tests read single counters at the end of a run; a counter that is off for one step, one outcome or one task is invisible to them but decides worker shutdown and termination",
     ["daisy/scheduler.py", "daisy/task_state.py"],
     [("counter updates", "daisy/scheduler.py: acquire_block, release_block, __queue_ready_block, __remove_from_processing_blocks"),
      ("derived counts", "daisy/task_state.py")],
     observe=["Scheduler.task_states"])

prop("C08", "Blocks reported done by the check function are skipped, all others run",
     "With a check function, a block for which it returns true when the block is about to be handed out is not handed out, counts as completed and skipped, and unlocks its dependents exactly as if it had been processed; a block for which it returns false or raises is handed out normally. "
     "Consequently a re-run after any interrupted or partially failed run processes exactly the blocks that are not done, in any combination of tasks.",
     ["histories", "inputs", "fault_sequences"], "all subsets of already completed blocks, all check answers including exceptions, all task chains",
     "no existing test passes a check function",
     ["daisy/scheduler.py", "daisy/serial_server.py", "daisy/server.py"],
     [("pre-check on hand-out", "daisy/scheduler.py: acquire_block, __precheck"),
      ("continuing after skipped blocks", "daisy/serial_server.py: run_blockwise; daisy/server.py: _handle_acquire_block")],
     observe=["Scheduler.acquire_block", "TaskState.skipped_count", "process_function calls"])

prop("C09", "Each hand-out of a block is resolved exactly once, by its holder or by its loss",
     "While a block is held by a connected worker it is not given to any other worker, and every hand-out is accounted for exactly once: as success or failure when the holder reports it, or as a failure when the connection to the holder is lost. "
     "Duplicate reports, reports by a worker that is not the current holder, and late reports for blocks that were already taken back have no effect on the run.",
     ["schedules", "fault_sequences", "histories"], "all message orders, worker crashes at any point, duplicated or late reports",
     "tests use one or few well-behaved workers; stale and duplicate returns need a crash or a failure report racing with re-assignment",
     ["daisy/server.py", "daisy/block_bookkeeper.py", "daisy/client.py"],
     [("record of sent blocks", "daisy/block_bookkeeper.py: notify_block_sent, notify_block_returned, is_valid_return, get_lost_blocks"),
      ("guarded release", "daisy/server.py: _safe_release_block, _handle_client_exception, _check_for_lost_blocks")],
     state=[("sent_blocks", "blocks currently held by a client and the stream they were sent to", "daisy/block_bookkeeper.py")],
     observe=["messages on the wire", "Server.run_blockwise result"])

prop("C10", "A distributed run always ends, with every block resolved and all workers stopped",
     "For every schedule of messages and every finite number of worker crashes and failing blocks, running tasks with the server ends; when it ends by itself every block of every task is completed, failed or orphaned, and completed ones were really processed successfully by a worker or skipped. "
     "However it ends (finished, without waiting for the remaining blocks when a stop was requested or run_blockwise was interrupted, or by an error escaping from a worker's start function, which is re-raised to the caller) all worker processes have been stopped, all client connections (also of clients in processes elsewhere) closed and observers told once about the exit.",
     ["schedules", "crash_points", "fault_sequences"], "all message interleavings, crash points of workers and timer firings",
     "tests run the real server a few times with real processes: one schedule each, at most one crash, at a fixed point",
     ["daisy/server.py", "daisy/task_worker_pools.py", "daisy/worker_pool.py", "daisy/tcp/tcp_server.py", "daisy/client.py"],
     [("event loop and completion check", "daisy/server.py: _event_loop, _check_all_tasks_completed"),
      ("lost blocks and dead workers", "daisy/server.py: _check_for_lost_blocks; daisy/task_worker_pools.py: check_worker_health"),
      ("recruiting", "daisy/server.py: _recruit_workers")],
     observe=["Server.run_blockwise", "worker processes", "client streams"])

prop("C11", "Every block request gets exactly one answer, and no worker waits in vain",
     "Each block request of a connected worker is answered exactly once: with a block of the task it asked for, or with a request to shut down, and the latter only when no block of that task is ready or still waiting for a dependency. "
     "A worker whose request is delayed is answered as soon as the server is idle and its task has an available block (or none left to come), no matter how many workers of other tasks are waiting.",
     ["schedules", "configurations"], "all arrival orders of requests and reports of several tasks' workers",
     "tests have a single task and never look at delayed requests",
     ["daisy/server.py", "daisy/client.py"],
     [("delayed requests", "daisy/server.py: pending_requests, _get_client_message, _handle_acquire_block")],
     observe=["messages on the wire", "Client.acquire_block"])

prop("C12", "A client reports every block it acquired exactly once, with the true outcome",
     "For every way user code can leave the acquire_block context (normally, after setting a status, by any exception, by interrupt) the block is reported back exactly once, and as successful if and only if the code ended without exception and did not set a status other than success (if it is interrupted after having set success explicitly, that stands). "
     "An exception is additionally reported with its block and worker, is contained in the context, and never brings down the run, whatever its type (including exceptions that cannot be pickled or unpickled). "
     "If the server is gone or has no more blocks the context yields None and nothing is reported.",
     ["inputs", "fault_sequences", "schedules"], "all user-code outcomes, all exception types, all server answers and connection losses",
     "one test with one success and no exception",
     ["daisy/client.py", "daisy/messages/message.py", "daisy/messages/block_failed.py", "daisy/server.py"],
     [("context manager", "daisy/client.py: acquire_block, release_block"),
      ("exception messages", "daisy/messages/*.py")],
     observe=["Client.acquire_block", "messages received by the server"])

prop("C13", "Messages arrive intact, in order, exactly once per connection; closes are seen",
     "Every message sent over a connection that stays open is received exactly once, unchanged and in the order in which it was sent, however the bytes are fragmented or coalesced, whichever sends overlap and whatever the message size (up to the 4 GB that its length field allows). "
     "After the peer is gone each side notices: receiving from or sending over the connection raises or reports it as closed instead of blocking or silently dropping, previously received messages stay intact, and other connections are unaffected; a graceful disconnect completes and is not reported as an error.",
     ["schedules", "inputs", "fault_sequences"], "all fragmentations of the byte streams, all interleavings of sends, receives and closes",
     "one test with two small messages over loopback, where fragmentation, overlapping writes and mid-message closes never occur",
     ["daisy/tcp/tcp_stream.py", "daisy/tcp/tcp_server.py", "daisy/tcp/tcp_client.py", "daisy/tcp/io_looper.py"],
     [("length-prefixed framing", "daisy/tcp/tcp_stream.py: _send_message, _get_message"),
      ("receive loops", "daisy/tcp/tcp_server.py: handle_stream; daisy/tcp/tcp_client.py: _receive"),
      ("disconnect handshake", "daisy/tcp/tcp_client.py: disconnect; daisy/tcp/internal_messages.py")],
     observe=["TCPServer.get_message", "TCPClient.get_message", "TCPStream.closed"])

prop("C14", "A worker pool keeps its target size: crashed workers replaced, finished ones not",
     "A pool asked for n workers has exactly n, starting or stopping (youngest first) only the difference, and asked to stop has none alive, for every sequence of resizes, crashes, normal exits and checks and for concurrent resizes; every worker ever started has its own ID, passed on to it with the pool's context. "
     "During a run the number of live workers of a task never exceeds its num_workers, a crashed worker is promptly replaced by exactly one new one, a worker that finished normally is not replaced, and a worker in which the process function has raised four times is stopped and replaced by exactly one. "
     "An error escaping a worker's start function is raised by the pool's error check exactly once.",
     ["histories", "schedules", "fault_sequences"], "all sequences of resize/stop/crash/exit/check operations; two threads resizing concurrently",
     "tests look at one reap call with mock workers and two end-to-end runs",
     ["daisy/worker_pool.py", "daisy/worker.py", "daisy/task_worker_pools.py"],
     [("resizing under a lock", "daisy/worker_pool.py: set_num_workers, _start_workers, _stop_workers"),
      ("reaping", "daisy/worker_pool.py: reap_dead_workers; daisy/task_worker_pools.py: check_worker_health, on_block_failure"),
      ("ids and context", "daisy/worker.py: get_next_id, _spawn_wrapper")],
     observe=["WorkerPool.workers", "processes started and terminated", "DAISY_CONTEXT seen by workers"])

prop("C15", "Serial execution gives the same result as any distributed execution",
     "Running tasks without multiprocessing processes every block that can be processed, one at a time and never before its dependencies, honours failures, retries, orphans and check functions like the distributed run does, and ends with the same task states. "
     "A block counts as successful unless the process function marked it as failed in that very attempt.",
     ["inputs", "histories", "configurations"], "all task DAGs, per-attempt outcomes and check answers",
     "one test with one task in which nothing fails, nothing is skipped and nothing depends on another task",
     ["daisy/serial_server.py", "daisy/scheduler.py", "daisy/convenience.py"],
     [("serial loop", "daisy/serial_server.py: run_blockwise")],
     observe=["process_function calls", "SerialServer.run_blockwise result"])

prop("C16", "run_blockwise covers all upstream tasks and reports overall success truthfully",
     "Running a list of tasks also runs every task reachable through their upstream tasks, each exactly once, independent of list order, duplicates and sharing, and without changing the caller's list. "
     "With multiprocessing the result is True if and only if every block of all these tasks was completed (processed successfully or skipped), and False if any block failed, was orphaned or was never resolved because the run was stopped; without multiprocessing the final states of all these tasks are returned.",
     ["inputs", "configurations", "fault_sequences"], "all small task DAGs and orderings, all failure patterns",
     "no test calls run_blockwise",
     ["daisy/convenience.py", "daisy/server.py", "daisy/serial_server.py"],
     [("collection of tasks", "daisy/convenience.py: run_blockwise"),
      ("result", "daisy/convenience.py: _run_blockwise")],
     observe=["run_blockwise result", "process_function calls"])

prop("C17", "Observers see every event once and in order",
     "A registered observer is told once that a task starts before any of its blocks is handed out, once per hand-out of a block, once per block returned to the scheduler, once per failure a worker reports, once that a task is done (at the time all its blocks are resolved, also if they were all skipped or orphaned), and once that the server exits, as the last event. "
     "The task state passed along is the state right after the event, and the printed execution summary shows the final counts.",
     ["schedules", "histories"], "all schedules and outcomes, serial and distributed",
     "observers are only exercised implicitly by the progress bar, whose calls nobody checks",
     ["daisy/server_observer.py", "daisy/server.py", "daisy/serial_server.py", "daisy/cl_monitor.py"],
     [("notifications", "daisy/server.py: notify_* call sites; daisy/serial_server.py"),
      ("summary", "daisy/cl_monitor.py: on_server_exit")],
     observe=["ServerObserver callbacks", "stdout"])

prop("C18", "A context reaches the worker unchanged or is refused when it is created",
     "Every context that can be created and every value that can be set in it (of text that an environment variable can hold) is recovered key by key, as text, from the environment variable a worker receives. "
     "Keys and values that could not be recovered are refused with an error at the time they are given, and changing a copy never changes the original.",
     ["inputs"], "all keys and values, including separators, empty strings, paths and numbers",
     "contexts appear in tests only with plain host names and numbers",
     ["daisy/context.py", "daisy/worker.py"],
     [("encoding", "daisy/context.py: to_env, from_env, __setitem__")],
     observe=["Context.from_env"])

prop("C19", "ROI-to-grid helpers return the smallest enclosing grid-aligned ROI",
     "expand_roi_to_grid and expand_write_roi_to_grid return, for every ROI, the smallest ROI that contains it and whose bounds lie on the write-block grid (the one starting where the first block of the task writes, respectively the one starting at the origin); a ROI already aligned is returned unchanged and expanding twice changes nothing more. "
     "expand_request_roi_to_grid returns that aligned ROI grown by the block context (what reading for it needs). This holds for ROIs before, across and after the origin, in any number of dimensions.",
     ["inputs"], "all ROIs, total/read/write ROIs, offsets of either sign, 1-D to 3-D",
     "no test calls them",
     ["daisy/blocks.py"],
     [("grid expansion", "daisy/blocks.py: expand_roi_to_grid, expand_write_roi_to_grid, expand_request_roi_to_grid")],
     observe=["return values"])

prop("C20", "Dependency queries are exact, symmetric and acyclic",
     "Asking a task's block graph for the blocks of a sub-ROI returns exactly the task's blocks whose write ROI (or, on request, read ROI) overlaps it, and none if there is no overlap. "
     "A block is upstream of another if and only if the other is downstream of it, both within a task and across tasks; across tasks upstream are exactly the upstream tasks' blocks whose write ROI overlaps the block's read ROI, within a task no chain of dependencies is cyclic, every two conflicting blocks are ordered by one, and there are no dependencies without read_write_conflict.",
     ["inputs", "configurations"], "all geometries and pairs of geometries, all fit modes",
     "one sub-ROI query on one symmetric 2-D geometry and one 1-D upstream/downstream comparison",
     ["daisy/dependency_graph.py"],
     [("sub-ROI lookup", "daisy/dependency_graph.py: get_subgraph_blocks"),
      ("conflict offsets applied forwards and backwards", "daisy/dependency_graph.py: upstream, downstream")],
     observe=["BlockwiseDependencyGraph.get_subgraph_blocks/upstream/downstream", "DependencyGraph.upstream/downstream"])

prop("C21", "Blocks of lost or overdue workers are taken back once, others never",
     "A block is taken back if and only if the connection to its holder is closed or the processing timeout is exceeded since it was handed out; it is then reported as lost exactly once, can be handed out again (with a new clock), and a later return by the old holder is refused. "
     "A task's timeout setting has this effect during a run.",
     ["histories", "fault_sequences"], "all sequences of sends, returns, closes and time steps for several blocks and workers",
     "no test closes a connection while a block is held or lets a timeout expire",
     ["daisy/block_bookkeeper.py", "daisy/server.py", "daisy/task.py"],
     [("lost-block detection", "daisy/block_bookkeeper.py: get_lost_blocks, is_valid_return")],
     observe=["BlockBookkeeper methods", "messages on the wire"])

prop("C22", "Block IDs are unique, stable names of block positions",
     "Within a task no two blocks share an ID, across tasks IDs never collide, and the ID of a block depends only on its position in the task's block grid: every way of obtaining the block (hand-out, retry, dependency or sub-ROI query, enumeration, transfer to a worker and back, a fresh run or process) gives the same ID with the same ROIs. "
     "Blocks compare equal and hash equal if and only if their IDs are equal, whatever was done to them meanwhile (status, times, ROIs clipped by user code).",
     ["inputs", "histories", "configurations"], "all geometries, all ways of obtaining a block, repeated runs",
     "tests pin the IDs of a few small grids obtained by hand-out only",
     ["daisy/block.py", "daisy/dependency_graph.py"],
     [("ID from grid index", "daisy/block.py: __compute_block_id"),
      ("identity", "daisy/block.py: __eq__, __hash__")],
     observe=["Block.block_id"])

prop("C23", "Each task's init callback runs once, before its workers, with a usable context",
     "In a distributed run the init callback of a task is called exactly once if the task gets to run, never twice and never for a task that is not started: before any worker of the task is started and before any of its blocks is handed out. "
     "It is given a context with the address of the server and the ID of the task, which clients of that task can use to connect. An error raised by the callback ends the run with that error, leaving no worker running.",
     ["schedules", "configurations", "fault_sequences"], "all task graphs and all schedules of completions, failures, skips, worker crashes and stop requests",
     "no test uses an init callback",
     ["daisy/server.py", "daisy/task.py", "daisy/context.py"],
     [("starting tasks", "daisy/server.py: _recruit_workers, started_tasks")],
     observe=["init_callback_fn", "worker processes", "blocks seen by workers"])

prop("C24", "Worker output and failures can be found: log files, summary, logging",
     "Everything a worker process writes to its standard output and error (by print, logging, file descriptor or child process), however it ends short of being killed, is in that worker's own files worker_<id>.out and .err below the log directory (and below the task's ID if it belongs to a task) and nowhere else; the files hold nothing of other workers or earlier runs; without a log directory it goes where the program's output goes. "
     "The execution summary of run_blockwise lists each exception a process function raised in a worker with its block, worker and exception (the first 100 of a task, and how many more), and names existing log files of the workers concerned, none if there is no log directory. "
     "Showing progress leaves logging alone: each log record is emitted exactly once by each handler that accepts it, after any number of runs in one process. All of this also holds for runs started by workers of another run.",
     ["configurations", "histories"], "all log directories, task IDs, ways to write and to end; all failure histories; all sets of handlers and numbers of runs",
     "no test looks at the content of a log file or of the summary",
     ["daisy/logging.py", "daisy/worker.py", "daisy/cl_monitor.py", "daisy/context.py"],
     [("output redirection", "daisy/logging.py: redirect_stdouterr, get_worker_log_basename; daisy/worker.py: _spawn_wrapper"),
      ("summary and log handlers", "daisy/cl_monitor.py: on_server_exit, _wrap_logging_handlers")],
     observe=["files in the log directory", "standard output of run_blockwise", "log handlers' streams"])

prop("C25", "A server comes up at an address at which its clients reach it",
     "Creating a server gives a listening server: if a port can not be had it tries again, up to max_port_tries times (then NoFreePort is raised). It announces the port it listens on and the given host, if one is given; otherwise the address of the machine's default route if a TCP connection to that address works (data sent arrives), and 127.0.0.1 in every other case. "
     "This holds whichever network calls on the way fail, hang or return wrong data: it comes up in bounded time and leaves no other socket open. Workers and init callbacks are given the announced address, and clients connect to it and no other. Each server decides this for itself, whatever servers were created in the process before.",
     ["fault_sequences", "configurations"], "all combinations of failing, hanging and wrongly answering network calls, default routes, given hosts and numbers of failing attempts",
     "tests run on one machine with one route where no call fails",
     ["daisy/tcp/tcp_server.py", "daisy/server.py", "daisy/task_worker_pools.py", "daisy/client.py"],
     [("finding a port", "daisy/tcp/tcp_server.py: __init__"),
      ("finding and testing the address", "daisy/tcp/tcp_server.py: _get_address, _validate_address"),
      ("passing it on", "daisy/task_worker_pools.py: __init__; daisy/server.py: _recruit_workers; daisy/client.py: __init__")],
     observe=["TCPServer.address", "Server.hostname, Server.port", "connections of clients"])

prop("C26", "Runs in one process are independent of each other and leave nothing behind",
     "Whatever runs happened in a process before (distributed, serial or with a new Server of one's own; successful, failed, interrupted, with crashed workers, or ended by an error) and whether they used the same task objects, new ones, or other tasks of the same names: a run behaves and ends exactly as if it were the first one. "
     "All its blocks are processed (unless a check function says they are done), with all their retries, with the same result, states and summary. When it has ended no worker process, connection, thread or listening socket of it remains.",
     ["histories", "schedules", "fault_sequences"], "all sequences of runs, with all outcomes, schedules, crashes and interrupts of the earlier ones",
     "each test runs once, in a process of its own or with its global state cleared",
     ["daisy/convenience.py", "daisy/server.py", "daisy/serial_server.py", "daisy/task.py", "daisy/tcp/io_looper.py", "daisy/tcp/tcp_server.py"],
     [("one IO loop per process", "daisy/tcp/io_looper.py: IOLooper; daisy/convenience.py: run_blockwise"),
      ("state of a run", "daisy/server.py: run_blockwise; daisy/serial_server.py: run_blockwise; daisy/scheduler.py: __init__"),
      ("task objects", "daisy/task.py: __init__")],
     observe=["blocks seen by process functions", "return values and summaries of run_blockwise", "threads, sockets and processes after a run"])

prop("C27", "A process function is run the way its signature asks for, or refused",
     "Every callable that has to be given one argument (function, lambda, closure, partial, method, class or static method, callable object, decorated function, whatever its arguments are called) is called exactly once with each block handed out, in a distributed as well as in a serial run; every one that has to be given none is run once by each worker as its start function; what it has captured or is bound to reaches the worker as it is when the run starts (in a serial run the very objects are used). "
     "One that has to be given more arguments is refused with a ValueError when the task is created.",
     ["inputs", "configurations"], "all kinds of callables, numbers and names of arguments",
     "tests use plain functions, lambdas and methods whose first argument is called self",
     ["daisy/task.py", "daisy/worker.py"],
     [("kind of process function", "daisy/task.py: __init__, _process_blocks"),
      ("transfer to the worker", "daisy/worker.py: spawn_function")],
     observe=["calls of the process function", "Task(...)"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
