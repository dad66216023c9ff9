From d2ab9ffdfcdc566f6323426ffb6b5bdb4f7a7128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 01/29] fix: tasks whose total ROI is too small for a single
 block have zero blocks

With read_write_conflict the dependency graph could not be built or queried
(IndexError), without it the number of blocks became negative and the task
was never done.
---
 daisy/dependency_graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 9d38bdb..6075b77 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -183,7 +183,7 @@ class BlockwiseDependencyGraph:
         level_offset = self._level_offsets[level]
 
         axis_blocks = [
-            (e - lo + s - r) // s
+            max(0, (e - lo + s - r) // s)
             for lo, e, s, r in zip(
                 level_offset,
                 self.total_write_roi.shape,
@@ -365,8 +365,12 @@ class BlockwiseDependencyGraph:
                 -write_roi_shape % self.block_write_roi.shape
             ) % self.block_write_roi.shape
 
+        # (but keep at least one level, even if not a single block fits)
         level_stride = Coordinate(
-            (min(a, b) for a, b in zip(level_stride, write_roi_shape))
+            (
+                min(a, max(b, w))
+                for a, b, w in zip(level_stride, write_roi_shape, write_shape)
+            )
         )
 
         logger.debug("final level stride (multiples of write size) is %s", level_stride)
-- 
2.43.0


From 8f78a1182791d3b39ecc303400623ff98f3a91d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 02/29] fix: find all blocks reading from a sub-ROI for
 asymmetric contexts

A block reads from a sub-ROI if its write ROI overlaps the sub-ROI grown by
the upper context below and the lower context above. With the two swapped,
dependents of a block were missed and the run never finished.
---
 daisy/dependency_graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 6075b77..ea778a2 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -506,11 +506,12 @@ class BlockwiseDependencyGraph:
 
         if read_roi:
             # if we want to get blocks whose read_roi overlaps with sub_roi
-            # simply grow the sub_roi by the block context. That way we
-            # only need to check if a blocks read_roi overlaps with sub_roi.
-            # This is the same behavior as when we want write_roi overlap
+            # simply grow the sub_roi by the (mirrored) block context. That
+            # way we only need to check if a blocks write_roi overlaps with
+            # sub_roi. This is the same behavior as when we want write_roi
+            # overlap
             sub_roi = sub_roi.grow(
-                self.read_write_context[0], self.read_write_context[1]
+                self.read_write_context[1], self.read_write_context[0]
             )
 
         # TODO: handle unsatisfiable sub_rois
-- 
2.43.0


From 9636d92f4c0438ae2a3cebeca30050661d7debec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:44 +0000
Subject: [PATCH 03/29] fix: look up blocks of a sub-ROI within the region the
 blocks really cover

A sub-ROI without any overlap raised a TypeError (no offset), and sub-ROIs in
the overhanging part of a task found no block, so that upstream and downstream
dependencies disagreed and dependent blocks were started early or never.
---
 daisy/dependency_graph.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index ea778a2..eaacca7 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -155,6 +155,19 @@ class BlockwiseDependencyGraph:
             num_blocks += self._num_level_blocks(level)
         return num_blocks
 
+    @property
+    def covered_write_roi(self):
+        """The ROI that the write ROIs of all blocks cover together, which can
+        be smaller (``fit="valid"``) or larger (``fit="overhang"``) than the
+        total write ROI."""
+        write_shape = self.block_write_roi.shape
+        shape = self.total_write_roi.shape
+        if self.fit == "valid":
+            shape = shape // write_shape * write_shape
+        elif self.fit == "overhang":
+            shape = -(-shape // write_shape) * write_shape
+        return Roi(self.total_write_roi.offset, [max(0, s) for s in shape])
+
     @property
     def inclusion_criteria(self):
         # TODO: Can't we remove this entirely by pre computing the write_roi
@@ -514,10 +527,9 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[1], self.read_write_context[0]
             )
 
-        # TODO: handle unsatisfiable sub_rois
-        # i.e. sub_roi is outside of *total_write_roi
-        # after accounting for padding
-        sub_roi = sub_roi.intersect(self.total_write_roi)
+        sub_roi = sub_roi.intersect(self.covered_write_roi)
+        if sub_roi.empty:
+            return []
 
         # get sub_roi relative to the write roi
         begin = sub_roi.begin - self.total_write_roi.offset
-- 
2.43.0


From c98395475ce4780a52be936c3a0d79f7455ac828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:19 +0000
Subject: [PATCH 04/29] fix: schedule blocks of downstream tasks that read from
 no upstream block

Blocks outside the region covered by the upstream tasks have no dependency
whose completion could make them ready, so they stayed pending forever.
---
 daisy/dependency_graph.py | 47 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index eaacca7..b284f6e 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -632,11 +632,56 @@ class DependencyGraph:
 
     def roots(self):
         root_tasks = self.root_tasks()
-        return {
+        roots = {
             task_id: (self.num_roots(task_id), self.root_gen(task_id))
             for task_id in root_tasks
         }
 
+        # tasks with upstream tasks can have blocks that do not read from any
+        # upstream block
+        for task_id in self.task_ids:
+            if task_id in roots or self.__all_blocks_have_upstream(task_id):
+                continue
+            blocks = [
+                block
+                for block in self.root_gen(task_id)
+                if len(self.upstream(block)) == 0
+            ]
+            if len(blocks) > 0:
+                roots[task_id] = (len(blocks), iter(blocks))
+
+        return roots
+
+    def __all_blocks_have_upstream(self, task_id):
+        """Cheap (sufficient) test whether every block of a task reads from the
+        blocks of at least one of its upstream tasks."""
+        graph = self.task_dependency_graphs[task_id]
+        write_shape = graph.block_write_roi.shape
+        covered = graph.covered_write_roi
+        if covered.empty:
+            return True
+
+        # read ROI of the first block ends here, of the last block begins here
+        first_write_shape = Coordinate(
+            min(a, b) for a, b in zip(write_shape, covered.shape)
+        )
+        read_end = covered.begin + first_write_shape + graph.read_write_context[1]
+        read_begin = (
+            covered.begin
+            + (covered.shape - 1) // write_shape * write_shape
+            - graph.read_write_context[0]
+        )
+
+        for upstream_task_id in self.upstream_tasks[task_id]:
+            roi = self.task_dependency_graphs[upstream_task_id].covered_write_roi
+            if not roi.empty and all(
+                b < e and rb < re
+                for b, e, rb, re in zip(roi.begin, read_end, read_begin, roi.end)
+            ):
+                return True
+
+        return False
+
     def __add_task(self, task):
         if task.task_id not in self.task_map:
             self.task_map[task.task_id] = task
-- 
2.43.0


From f452de8e72a4ce40f7480af4ceb8c8560439e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:41 +0000
Subject: [PATCH 05/29] fix: count every orphaned block exactly once

A block orphaned by one failure was forgotten as soon as none of its upstream
blocks was in the surface, even though some were still to be processed. If one
of those failed later, the block was counted as orphaned again and the task
was never reported as done.
---
 daisy/ready_surface.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/daisy/ready_surface.py b/daisy/ready_surface.py
index e014d30..6ce0acf 100644
--- a/daisy/ready_surface.py
+++ b/daisy/ready_surface.py
@@ -15,8 +15,8 @@ class ReadySurface:
         1) it has been marked as successfully completed
         2) it has downstream dependencies marked as OTHER
     A node is a BOUNDARY node iff
-        1) it has been marked as failed
-        2) it has upstream dependencies marked as SURFACE
+        1) it has been marked as failed (directly or by an upstream failure)
+        2) it has upstream dependencies
     """
 
     def __init__(self, get_downstream_nodes, get_upstream_nodes):
@@ -66,10 +66,6 @@ class ReadySurface:
             ]
             if all(abs(x) > 0 for x in contained):
                 self.surface.remove(up_node)
-                for down_node, c in zip(down_nodes, contained):
-                    if c < 0:
-                        # node was in boundary. maybe we can remove it
-                        self.__remove_from_boundary(down_node)
 
         if len(list(self.downstream(node))) == 0:
             self.surface.remove(node)
@@ -123,10 +119,6 @@ class ReadySurface:
             ]
             if all(abs(x) > 0 for x in contained):
                 self.surface.remove(up_node)
-                for down_node, c in zip(down_nodes, contained):
-                    if c < 0:
-                        # node was in boundary. maybe we can remove it
-                        self.__remove_from_boundary(down_node)
 
         if len(list(self.upstream(node))) == 0:
             self.boundary.remove(node)
@@ -142,13 +134,3 @@ class ReadySurface:
             return True
         else:
             return False
-
-    def __remove_from_boundary(self, node):
-        up_nodes = self.upstream(node)
-        if node in self.boundary and all(
-            up_node not in self.surface for up_node in up_nodes
-        ):
-            self.boundary.remove(node)
-            return True
-        else:
-            return False
-- 
2.43.0


From bcbeed3f4a22a51a1d0f5c741883a7b82a600cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:16 +0000
Subject: [PATCH 06/29] fix: reset the status of a block when it is handed out
 again

A block that failed kept the FAILED status in its next attempt, such that
without multiprocessing a retry could never succeed.
---
 daisy/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daisy/scheduler.py b/daisy/scheduler.py
index f85003e..e7c2d48 100644
--- a/daisy/scheduler.py
+++ b/daisy/scheduler.py
@@ -102,6 +102,8 @@ class Scheduler:
                 else:
                     self.task_states[task_id].started = True
                     self.task_queues[task_id].processing_blocks.add(block.block_id)
+                    # forget the status of a previous attempt
+                    block.status = BlockStatus.PROCESSING
                     return block
 
             else:
-- 
2.43.0


From 8cf75e3ac5863301a4acb206b39b2593db8b9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 07/29] fix: continue serial runs after skipped blocks and
 report every finished task

If all blocks that were ready got skipped by the check function, the serial
server stopped without processing the blocks that became ready thereby. Tasks
that finished by skipping or orphaning were not reported to observers.
---
 daisy/serial_server.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index e241862..050083a 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -24,6 +24,7 @@ class SerialServer(ServerObservee):
         process_funcs = {task.task_id: task.process_function for task in tasks}
 
         while True:
+            self._check_finished_tasks(scheduler, finished_tasks)
             ready_tasks = scheduler.get_ready_tasks()
             if finished_tasks == all_tasks:
                 break
@@ -31,9 +32,15 @@ class SerialServer(ServerObservee):
                 block = None
                 for ready_task in ready_tasks:
                     block = scheduler.acquire_block(ready_task.task_id)
+                    # acquiring a block can finish a task by skipping blocks
+                    self._check_finished_tasks(scheduler, finished_tasks)
                     if block is not None:
                         break
                 if block is None:
+                    if len(scheduler.get_ready_tasks()) > 0:
+                        # all blocks that were ready got skipped, which made
+                        # others available
+                        continue
                     break
                 if block.task_id not in started_tasks:
                     self.notify_task_start(
@@ -53,16 +60,13 @@ class SerialServer(ServerObservee):
                     block.task_id, scheduler.task_states[block.task_id]
                 )
 
-                if scheduler.task_states[block.task_id].is_done():
-                    self.notify_task_done(
-                        block.task_id, scheduler.task_states[block.task_id]
-                    )
-                    finished_tasks.add(block.task_id)
-                    started_tasks.remove(block.task_id)
-                    del process_funcs[block.task_id]
-
-            if len(process_funcs) == 0:
-                break
-
         self.notify_server_exit()
         return scheduler.task_states
+
+    def _check_finished_tasks(self, scheduler, finished_tasks):
+        """Notify observers about all tasks that are done by now (i.e., all of
+        their blocks have been processed, skipped, failed, or orphaned)."""
+        for task_id, task_state in scheduler.task_states.items():
+            if task_id not in finished_tasks and task_state.is_done():
+                finished_tasks.add(task_id)
+                self.notify_task_done(task_id, task_state)
-- 
2.43.0


From eee11c710d337aabe582df202d4cb8bce90f534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 08/29] fix: run_blockwise returns True only if all blocks were
 successful

Blocks that failed or got orphaned are done as well, so that the result was
always True, in contrast to what is documented.
---
 daisy/convenience.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index b668f2b..4ddfb4e 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -57,4 +57,7 @@ def _run_blockwise(tasks, stop_event):
     server = Server(stop_event=stop_event)
     cl_monitor = CLMonitor(server)  # noqa
     task_states = server.run_blockwise(tasks)
-    return all(task_state.is_done() for task_state in task_states.values())
+    return all(
+        task_state.completed_count == task_state.total_block_count
+        for task_state in task_states.values()
+    )
-- 
2.43.0


From 02d079af17cf95dd5cce00f607097472a9512354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 09/29] fix: exceptions that can not be (un)pickled do not
 bring down the run

A failed block is reported together with the exception of the user code. If
that one could not be pickled the failure was never reported by the worker, if
it could not be unpickled the server stopped with an unrelated error.
---
 daisy/messages/message.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/daisy/messages/message.py b/daisy/messages/message.py
index cbc362c..7733015 100644
--- a/daisy/messages/message.py
+++ b/daisy/messages/message.py
@@ -1,5 +1,6 @@
 from daisy.tcp import TCPMessage
 import logging
+import pickle
 
 logger = logging.getLogger(__name__)
 
@@ -19,3 +20,30 @@ class ExceptionMessage(Message):
 
     def __init__(self, exception):
         self.exception = exception
+
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        # exceptions are user objects, which might fail to (un)pickle. Encode
+        # them separately, such that the message itself always gets through.
+        description = _safe_repr(self.exception)
+        try:
+            pickled = pickle.dumps(self.exception)
+        except Exception:
+            pickled = None
+        state["exception"] = (pickled, description)
+        return state
+
+    def __setstate__(self, state):
+        pickled, description = state["exception"]
+        self.__dict__.update(state)
+        try:
+            self.exception = pickle.loads(pickled)
+        except Exception:
+            self.exception = RuntimeError(description)
+
+
+def _safe_repr(exception):
+    try:
+        return repr(exception)
+    except Exception:
+        return type(exception).__name__
-- 
2.43.0


From 3537e0a32d7c7343dde3ef0005ec13d41324a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 10/29] fix: delayed requests of one task do not starve those
 of other tasks

Only the first task with a delayed request was considered when idle. As long as
it had no block to hand out, its request was delayed again and again, while
workers of tasks with available blocks kept waiting, possibly forever.
---
 daisy/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index 011c38f..a5a37b5 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -93,6 +93,12 @@ class Server(ServerObservee):
             if self.pending_requests[task_id].empty():
                 continue
 
+            # still nothing to hand out for this task, do not let its requests
+            # stand in the way of requests for other tasks
+            task_state = self.scheduler.task_states[task_id]
+            if task_state.ready_count == 0 and task_state.pending_count > 0:
+                continue
+
             logger.debug("Answering delayed request for task %s", task_id)
             return self.pending_requests[task_id].get()
 
-- 
2.43.0


From 385715f4ec98455207e17fe36a1c236c7a2583f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 11/29] fix: do not start an extra worker for a failing worker
 that is gone already

If a worker crashed and was replaced before its last block failure was handled,
the pool grew beyond the number of workers of the task.
---
 daisy/task_worker_pools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daisy/task_worker_pools.py b/daisy/task_worker_pools.py
index e37b90a..f921e13 100644
--- a/daisy/task_worker_pools.py
+++ b/daisy/task_worker_pools.py
@@ -67,5 +67,7 @@ class TaskWorkerPools(ServerObserver):
 
             self.failure_counts[task_id][worker_id] = 0
             worker_pool = self.worker_pools[task_id]
-            worker_pool.stop(worker_id)
-            worker_pool.inc_num_workers(1)
+            # the worker might be gone (and replaced) already
+            if worker_id in worker_pool.workers:
+                worker_pool.stop(worker_id)
+                worker_pool.inc_num_workers(1)
-- 
2.43.0


From 9d2de68ddc12626477788b424554e70aa67384d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 12/29] fix: a block that timed out on a closed stream is lost
 only once

It was listed twice, which resulted in a KeyError.
---
 daisy/block_bookkeeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/block_bookkeeper.py b/daisy/block_bookkeeper.py
index 5b5ad67..dbb02a3 100644
--- a/daisy/block_bookkeeper.py
+++ b/daisy/block_bookkeeper.py
@@ -75,7 +75,7 @@ class BlockBookkeeper:
                 lost_block_ids.append(block_id)
 
             # did processing time out?
-            if self.processing_timeout is not None:
+            elif self.processing_timeout is not None:
                 if time.time() - log.time_sent > self.processing_timeout:
                     lost_block_ids.append(block_id)
 
-- 
2.43.0


From 791ff9468e3af0932360cbf009f5c550febdf95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 13/29] fix: refuse invalid context values given to the
 constructor

They were only checked when set later on, but could not be recovered from the
environment variable either way.
---
 daisy/context.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/daisy/context.py b/daisy/context.py
index b53dec0..7459ffa 100644
--- a/daisy/context.py
+++ b/daisy/context.py
@@ -11,6 +11,8 @@ class Context:
 
     def __init__(self, **kwargs):
         self.__dict = dict(logdir=get_log_basedir(), **kwargs)
+        for k, v in self.__dict.items():
+            self.__validate(k, v)
 
     def copy(self):
         return copy.deepcopy(self)
@@ -22,13 +24,17 @@ class Context:
         k = str(k)
         v = str(v)
 
-        if "=" in k or ":" in k:
-            raise RuntimeError("Context variables must not contain = or :.")
-        if "=" in v or ":" in v:
-            raise RuntimeError("Context values must not contain = or :.")
+        self.__validate(k, v)
 
         self.__dict[k] = v
 
+    @staticmethod
+    def __validate(k, v):
+        if "=" in str(k) or ":" in str(k):
+            raise RuntimeError("Context variables must not contain = or :.")
+        if "=" in str(v) or ":" in str(v):
+            raise RuntimeError("Context values must not contain = or :.")
+
     def __getitem__(self, k):
         return self.__dict[k]
 
-- 
2.43.0


From 6e587f5a10741290a2cf03509b8ec441c2a47d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 14/29] fix: forward worker errors that can not be pickled

The error queue drops them silently in its feeder thread, so the error was
never raised and the run waited forever for the worker.
---
 daisy/worker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daisy/worker.py b/daisy/worker.py
index 6e48529..59195dc 100644
--- a/daisy/worker.py
+++ b/daisy/worker.py
@@ -3,6 +3,7 @@ import daisy.logging as daisy_logging
 import logging
 import multiprocessing
 import os
+import pickle
 import queue
 import dill
 
@@ -102,6 +103,11 @@ class Worker:
         except Exception as e:
             logger.error("%s received exception: %s", self, e)
             if self.error_queue:
+                try:
+                    # the queue silently drops what it can not pickle
+                    pickle.loads(pickle.dumps(e))
+                except Exception:
+                    e = RuntimeError(repr(e))
                 try:
                     self.error_queue.put(e, timeout=1)
                 except queue.Full:
-- 
2.43.0


From 090c7b5a8d8654143667f5fe7a146d9af706c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:46 +0000
Subject: [PATCH 15/29] fix: close the connection of a client that disconnects
 gracefully

The server stopped listening to such a client, but never closed (or
looked at) the connection again. A block the client still held was thus
never noticed to be lost, and the run did not end.
---
 daisy/tcp/tcp_server.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index aee63e4..de2796e 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -102,9 +102,10 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
 
                 if isinstance(message, NotifyClientDisconnect):
                     # client notifies that it disconnects, send a response
-                    # indicating we are no longer using this stream and break
-                    # out of event loop
-                    stream.send_message(AckClientDisconnect())
+                    # indicating we are no longer using this stream, close it,
+                    # and break out of event loop
+                    await stream._send_message(AckClientDisconnect())
+                    stream.close()
                     self.client_streams.remove(stream)
                     return
 
-- 
2.43.0


From 137b7996ebc5f921f5db56efe7d9de25df632168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 16/29] fix: closing a stream between the two reads of a
 message no longer raises AttributeError

TCPStream._get_message read self.stream twice; if the stream is closed (or
sending failed) between the two reads, self.stream is None and the awaiting
reader got an AttributeError instead of StreamClosedError.
---
 daisy/tcp/tcp_stream.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index 767f834..56f2443 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -83,15 +83,18 @@ class TCPStream(IOLooper):
             self.stream = None
 
     async def _get_message(self):
-        if self.stream is None:
+        # self.stream can become None between the two reads, if the stream is
+        # closed in the meantime or sending fails
+        stream = self.stream
+        if stream is None:
             raise StreamClosedError(*self.address)
 
         try:
-            size = await self.stream.read_bytes(4)
+            size = await stream.read_bytes(4)
             size = struct.unpack("I", size)[0]
             assert size < 2**64  # TODO: parameterize max message size
             # assert size < 2**16  # TODO: parameterize max message size
-            pickled_data = await self.stream.read_bytes(size)
+            pickled_data = await stream.read_bytes(size)
 
         except tornado.iostream.StreamClosedError:
             self.stream = None
-- 
2.43.0


From 72368c1dc014f460087a0aba37e871e63d7c1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:51 +0000
Subject: [PATCH 17/29] fix: Client.acquire_block gives None also if the server
 was gone before the request

Whether a lost connection was noticed while sending the request or while
waiting for the answer is a matter of timing; in the former case, acquire_block
raised StreamClosedError (or NotConnected) instead of yielding None.
---
 daisy/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daisy/client.py b/daisy/client.py
index 3fa6fa0..e150a20 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -11,6 +11,7 @@ from .messages import (
 )
 from contextlib import contextmanager
 from daisy.tcp import TCPClient, StreamClosedError
+from daisy.tcp.exceptions import NotConnected
 import logging
 
 logger = logging.getLogger(__name__)
@@ -69,12 +70,12 @@ class Client:
     @contextmanager
     def acquire_block(self):
         """API for client to get a new block."""
-        self.tcp_client.send_message(AcquireBlock(self.task_id))
         message = None
         try:
+            self.tcp_client.send_message(AcquireBlock(self.task_id))
             while message is None:
                 message = self.tcp_client.get_message(timeout=0.1)
-        except StreamClosedError:
+        except (StreamClosedError, NotConnected):
             logger.debug("TCP stream was closed, server is probably down")
             yield
             return
-- 
2.43.0


From 64fb08f46e9106a4ac709284e60745a261432854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:50 +0000
Subject: [PATCH 18/29] fix: an observer that unregisters itself does not hide
 the event from others

---
 daisy/server_observer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/daisy/server_observer.py b/daisy/server_observer.py
index d530c53..67d63ae 100644
--- a/daisy/server_observer.py
+++ b/daisy/server_observer.py
@@ -33,25 +33,25 @@ class ServerObservee:
         self.observers.remove(observer)
 
     def notify_task_start(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_task_start(task_id, task_state)
 
     def notify_acquire_block(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_acquire_block(task_id, task_state)
 
     def notify_release_block(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_release_block(task_id, task_state)
 
     def notify_task_done(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_task_done(task_id, task_state)
 
     def notify_block_failure(self, block, exception, context):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_block_failure(block, exception, context)
 
     def notify_server_exit(self):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_server_exit()
-- 
2.43.0


From dce90aa3c4dcce27e1e163bee7b943ecc3825f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:52 +0000
Subject: [PATCH 19/29] fix: log handlers are wrapped once, not again by every
 run in the same process

---
 daisy/cl_monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daisy/cl_monitor.py b/daisy/cl_monitor.py
index 55a0d18..9ae36cf 100644
--- a/daisy/cl_monitor.py
+++ b/daisy/cl_monitor.py
@@ -69,7 +69,8 @@ class CLMonitor(ServerObserver):
 
     def _is_tty_stream_handler(self, handler):
         return (
-            hasattr(handler, "stream")
+            not isinstance(handler, TqdmLoggingHandler)
+            and hasattr(handler, "stream")
             and hasattr(handler.stream, "isatty")
             and handler.stream.isatty()
         )
-- 
2.43.0


From 9de72f9bacc31a035f6868f9dec8589a95e7170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:52 +0000
Subject: [PATCH 20/29] fix: the summary does not name worker logs if there is
 no log directory

---
 daisy/cl_monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/cl_monitor.py b/daisy/cl_monitor.py
index 9ae36cf..dea359f 100644
--- a/daisy/cl_monitor.py
+++ b/daisy/cl_monitor.py
@@ -141,7 +141,7 @@ class CLMonitor(ServerObserver):
                     diff = len(summary.block_failures) - max_entries
                     print(f"      (and {diff} more)")
 
-            if num_block_failures > 0:
+            if num_block_failures > 0 and daisy_logging.get_log_basedir() is not None:
                 print()
                 print("    See worker logs for details:")
                 print()
-- 
2.43.0


From ae7a41c1ea8ade23b2173c82d7926b2f8d53ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:36 +0000
Subject: [PATCH 21/29] fix: a client that connects after the run ended is
 disconnected, instead of waiting forever

---
 daisy/server.py         |  1 +
 daisy/tcp/tcp_server.py | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/daisy/server.py b/daisy/server.py
index a5a37b5..e0c5c50 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -54,6 +54,7 @@ class Server(ServerObservee):
             task.task_id: Queue() for task in tasks
         }
 
+        self.tcp_server.accept()
         self._recruit_workers()
 
         try:
diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index de2796e..1189d26 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -27,6 +27,7 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         self.message_queue = queue.Queue()
         self.exception_queue = queue.Queue()
         self.client_streams = set()
+        self.accepting = True
 
         # find empty port, start listening
         for i in range(max_port_tries):
@@ -67,9 +68,17 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         except queue.Empty:
             return None
 
+    def accept(self):
+        """Accept connections from clients, again after a
+        :meth:`disconnect`."""
+
+        self.accepting = True
+
     def disconnect(self):
-        """Close all open streams to clients."""
+        """Close all open streams to clients, and those of clients that connect
+        from now on."""
 
+        self.accepting = False
         streams = list(self.client_streams)  # avoid set change error
         for stream in streams:
             logger.debug("Closing stream %s", stream)
@@ -96,6 +105,11 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
 
         self.client_streams.add(stream)
 
+        if not self.accepting:
+            # nobody will answer this client
+            logger.debug("Closing stream %s", stream)
+            stream.close()
+
         while True:
             try:
                 message = await stream._get_message()
-- 
2.43.0


From d9cfaacae572f059f8407d1f9000aaf0eca99cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:57 +0000
Subject: [PATCH 22/29] fix: blocks of lost clients are taken back before a
 request is answered

A replacement worker that asked for a block before the block of the crashed
worker was taken back was told to shut down; if that was the last block, no
worker was left to process it and the run never ended.
---
 daisy/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index e0c5c50..7cf8dfd 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -119,6 +119,8 @@ class Server(ServerObservee):
 
     def _handle_client_message(self, message):
         if isinstance(message, AcquireBlock):
+            # make lost blocks available again before answering this request
+            self._check_for_lost_blocks()
             self._handle_acquire_block(message)
         elif isinstance(message, ReleaseBlock):
             self._handle_release_block(message)
-- 
2.43.0


From 7dbc300440feeefeabfe225bfb665aa62385b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:49 +0000
Subject: [PATCH 23/29] fix: TCPServer tries another port if listening fails

The error handling used an attribute that does not exist, the first failure
raised AttributeError.
---
 daisy/tcp/tcp_server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index 1189d26..3858018 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -36,10 +36,9 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                 break
 
             except OSError:
-                if i == self.max_port_tries - 1:
+                if i == max_port_tries - 1:
                     raise NoFreePort(
-                        "Could not find a free port after %d tries "
-                        % self.max_port_tries
+                        "Could not find a free port after %d tries " % max_port_tries
                     )
 
         self.address = self._get_address(host)
-- 
2.43.0


From 9795bd6bbb8a8175d0f419ecab33fc056ba54707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:58 +0000
Subject: [PATCH 24/29] fix: a TCPServer listens on the IO loop of the process,
 also if another thread created it

---
 daisy/tcp/tcp_server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index 3858018..7e407b9 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -2,6 +2,7 @@ from .exceptions import NoFreePort
 from .internal_messages import AckClientDisconnect, NotifyClientDisconnect
 from .io_looper import IOLooper
 from .tcp_stream import TCPStream
+import asyncio
 import logging
 import queue
 import socket
@@ -24,6 +25,10 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         tornado.tcpserver.TCPServer.__init__(self)
         IOLooper.__init__(self)
 
+        # listen on the IO loop of this process, also if it was created in
+        # another thread (and is not the current one of this thread)
+        asyncio.set_event_loop(self.ioloop.asyncio_loop)
+
         self.message_queue = queue.Queue()
         self.exception_queue = queue.Queue()
         self.client_streams = set()
-- 
2.43.0


From 5b162d3b0690672b9f6993e23b93d1aa4b7734cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:58 +0000
Subject: [PATCH 25/29] fix: process functions that are class methods, methods
 without 'self', or decorated

---
 daisy/task.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/daisy/task.py b/daisy/task.py
index 0a668b5..db5c97d 100644
--- a/daisy/task.py
+++ b/daisy/task.py
@@ -1,5 +1,5 @@
 from .client import Client
-from inspect import getfullargspec
+from inspect import Parameter, signature
 
 
 class Task:
@@ -165,9 +165,7 @@ class Task:
         else:
             self.init_callback_fn = self._default_init
 
-        args = getfullargspec(process_function).args
-        if "self" in args:
-            args.remove("self")
+        args = self._get_arguments(process_function)
         if len(args) == 0:
             # spawn function
             self.spawn_worker_function = process_function
@@ -177,6 +175,22 @@ class Task:
         else:
             raise ValueError(f"daisy does not know what to pass into args: {args}")
 
+    @staticmethod
+    def _get_arguments(function):
+        """The names of the arguments to pass to a function (i.e., without the
+        object or class of a method)."""
+
+        parameters = signature(function, follow_wrapped=False).parameters.values()
+        if any(p.kind == Parameter.VAR_POSITIONAL for p in parameters):
+            # a decorator that passes on its arguments
+            parameters = signature(function).parameters.values()
+
+        return [
+            p.name
+            for p in parameters
+            if p.kind in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD)
+        ]
+
     def _default_init(self, context):
         pass
 
-- 
2.43.0


From 013e1679c26f1514af5ebf09f4db1e103776e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:29 +0000
Subject: [PATCH 26/29] fix: a client without a log directory does not set it
 to 'None'

---
 daisy/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daisy/client.py b/daisy/client.py
index e150a20..76d821d 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -58,7 +58,9 @@ class Client:
             self.context = Context.from_env()
         logger.debug("Client context: %s", self.context)
 
-        set_log_basedir(self.context["logdir"])
+        logdir = self.context["logdir"]
+        # (values of contexts from the environment are strings)
+        set_log_basedir(logdir if logdir != "None" else None)
         self.host = self.context["hostname"]
         self.port = int(self.context["port"])
         self.worker_id = int(self.context["worker_id"])
-- 
2.43.0


From 49d15ff2457d477c21b09eb3dc8fbb4ce9a0b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:34 +0000
Subject: [PATCH 27/29] fix: messages of more than 100MB do not close the
 connection

---
 daisy/tcp/tcp_client.py | 6 ++++--
 daisy/tcp/tcp_server.py | 4 ++--
 daisy/tcp/tcp_stream.py | 4 ++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/daisy/tcp/tcp_client.py b/daisy/tcp/tcp_client.py
index e72f439..537a3ad 100644
--- a/daisy/tcp/tcp_client.py
+++ b/daisy/tcp/tcp_client.py
@@ -1,6 +1,6 @@
 from .exceptions import NotConnected
 from .io_looper import IOLooper
-from .tcp_stream import TCPStream
+from .tcp_stream import TCPStream, MAX_BUFFER_SIZE
 from .internal_messages import AckClientDisconnect, NotifyClientDisconnect
 import logging
 import queue
@@ -124,7 +124,9 @@ class TCPClient(IOLooper):
         """Async method to connect to the TCPServer."""
 
         try:
-            stream = await self.client.connect(self.host, self.port)
+            stream = await self.client.connect(
+                self.host, self.port, max_buffer_size=MAX_BUFFER_SIZE
+            )
         except Exception as e:
             self.exception_queue.put(e)
             return
diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index 7e407b9..a362f4c 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -1,7 +1,7 @@
 from .exceptions import NoFreePort
 from .internal_messages import AckClientDisconnect, NotifyClientDisconnect
 from .io_looper import IOLooper
-from .tcp_stream import TCPStream
+from .tcp_stream import TCPStream, MAX_BUFFER_SIZE
 import asyncio
 import logging
 import queue
@@ -22,7 +22,7 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
     """
 
     def __init__(self, host=None, max_port_tries=1000):
-        tornado.tcpserver.TCPServer.__init__(self)
+        tornado.tcpserver.TCPServer.__init__(self, max_buffer_size=MAX_BUFFER_SIZE)
         IOLooper.__init__(self)
 
         # listen on the IO loop of this process, also if it was created in
diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index 56f2443..510c5e9 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -7,6 +7,10 @@ import tornado.iostream
 
 logger = logging.getLogger(__name__)
 
+# enough for the largest message (whose size has to fit into four bytes) and what
+# is read beyond its end (tornado closes streams whose buffer exceeds 100MB)
+MAX_BUFFER_SIZE = 2**32 + 2**20
+
 
 class TCPStream(IOLooper):
     """Wrapper around :class:`tornado.iostream.IOStream` to send
-- 
2.43.0


From a35062b28456873664116d4ac7a8a53407fa65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:34 +0000
Subject: [PATCH 28/29] fix: block IDs are unique also in volumes with more
 than 2^53 of them

---
 daisy/block.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/daisy/block.py b/daisy/block.py
index 9cc9221..9aa9676 100644
--- a/daisy/block.py
+++ b/daisy/block.py
@@ -1,10 +1,23 @@
 from __future__ import absolute_import
 from .freezable import Freezable
 from enum import Enum
-from funlib.math import cantor_number
 import copy
 
 
+def cantor_number(coordinate):
+    """The "Cantor number" of a coordinate, as in ``funlib.math``, but exact for
+    numbers beyond the precision of floats."""
+
+    number = coordinate[0]
+    for dims in range(2, len(coordinate) + 1):
+        # volume of the pyramid with this edge length
+        volume, edge_length = 1, sum(coordinate[:dims])
+        for d in range(dims):
+            volume = volume * (edge_length + d) // (d + 1)
+        number += volume
+    return number
+
+
 class BlockStatus(Enum):
     CREATED = 0
     PROCESSING = 1
-- 
2.43.0


From 7c5866f6bd0124a900ade721be66ce2f92e11ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:19 +0000
Subject: [PATCH 29/29] fix: collecting the tasks to run does not take
 exponential time

---
 daisy/convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index 4ddfb4e..408f1d2 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -31,7 +31,7 @@ def run_blockwise(tasks, multiprocessing=True):
         if task.task_id not in task_ids:
             task_ids.add(task.task_id)
             all_tasks.append(task)
-        tasks.extend(task.upstream_tasks)
+            tasks.extend(task.upstream_tasks)
 
     tasks = all_tasks
 
-- 
2.43.0

