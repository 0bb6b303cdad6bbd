From 2b3a287dc5c6cf138724a5894ec5eaf6761e17d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 01/54] fix: restored interval triggers can compute their first
 run time again

interval_size is not part of the persisted state, so resuming, previewing or
re-adding a task restored from a store raised AttributeError.
---
 asyncz/triggers/interval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 6573031..bf4a177 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -83,7 +83,9 @@ class IntervalTrigger(BaseTrigger):
             next_trigger_time = start_at
         else:
             time_difference_seconds = timedelta_seconds(now - start_at)
-            next_interval_number = int(ceil(time_difference_seconds / self.interval_size))
+            next_interval_number = int(
+                ceil(time_difference_seconds / timedelta_seconds(self.interval))
+            )
             next_trigger_time = start_at + self.interval * next_interval_number
 
         if self.jitter is not None:
-- 
2.43.0


From 6ff316ebe88ab3ab8528eb0a69999036316e9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 02/54] fix: count the time a processing pass took when arming
 the next wakeup

---
 asyncz/schedulers/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b8f0695..7af59aa 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1692,6 +1692,8 @@ class BaseScheduler(SchedulerType):
                 self.loggers[self.logger_name].debug("No tasks. Waiting until task is added.")
 
         else:
+            # the pass itself took time, so measure from the current time
+            now = datetime.now(self.timezone)
             wait_seconds = min(max(timedelta_seconds(next_wakeup_time - now), 0), TIMEOUT_MAX)
             self.loggers[self.logger_name].debug(
                 f"Next wakeup is due at {next_wakeup_time} (in {wait_seconds} seconds)."
-- 
2.43.0


From 3252544907abb152bc27c109de22295e7dd4fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 03/54] fix: persist fractional mistrigger grace times

The task state only accepted whole seconds, so a task with a fractional
mistrigger_grace_time could not be stored or sent to a process pool.
---
 asyncz/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/datastructures.py b/asyncz/datastructures.py
index afcac42..4de6e22 100644
--- a/asyncz/datastructures.py
+++ b/asyncz/datastructures.py
@@ -67,7 +67,7 @@ class TaskState(BaseDatastructureState):  # type: ignore
     coalesce: Optional[bool] = None
     trigger: Optional[TriggerType] = None
     executor: Optional[str] = None
-    mistrigger_grace_time: Optional[int] = None
+    mistrigger_grace_time: Optional[Union[int, float]] = None
     max_instances: Optional[int] = None
     next_run_time: Optional[datetime] = None
     scheduler: Optional[Any] = None
-- 
2.43.0


From dd50feb9e341afb52582f2a892ff9efb6bba26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 04/54] fix: hand tasks to the asyncio executor safely from
 other threads

run_task called from a thread other than the event loop's used create_task
directly: the loop was not woken up, so the submitted run started late or never.
---
 asyncz/executors/asyncio.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/asyncz/executors/asyncio.py b/asyncz/executors/asyncio.py
index e88a40a..1967e16 100644
--- a/asyncz/executors/asyncio.py
+++ b/asyncz/executors/asyncio.py
@@ -1,3 +1,4 @@
+import asyncio
 import inspect
 from datetime import datetime
 from typing import TYPE_CHECKING, Any, cast
@@ -26,7 +27,7 @@ class AsyncIOExecutor(BaseExecutor):
         self.pending_futures: set[Any] = set()
 
     def shutdown(self, wait: bool = True) -> None:
-        for f in self.pending_futures:
+        for f in tuple(self.pending_futures):
             if not f.done():
                 f.cancel()
 
@@ -46,7 +47,12 @@ class AsyncIOExecutor(BaseExecutor):
             else:
                 self.run_task_success(task_id, events)
 
-        if inspect.iscoroutinefunction(task.fn):
+        if self._called_from_foreign_thread():
+            # event loops are not thread-safe, so hand over the work to the loop
+            fn: Any = asyncio.run_coroutine_threadsafe(
+                self._run_in_loop(task, run_times), self.event_loop
+            )
+        elif inspect.iscoroutinefunction(task.fn):
             coroutine = run_coroutine_task(
                 task, cast(str, task.store_alias), run_times, self.logger
             )
@@ -56,5 +62,22 @@ class AsyncIOExecutor(BaseExecutor):
                 None, run_task, task, cast(str, task.store_alias), run_times, self.logger
             )
 
-        fn.add_done_callback(callback)
         self.pending_futures.add(fn)
+        fn.add_done_callback(callback)
+
+    def _called_from_foreign_thread(self) -> bool:
+        if not self.event_loop.is_running():
+            return False
+        try:
+            return asyncio.get_running_loop() is not self.event_loop
+        except RuntimeError:
+            return True
+
+    async def _run_in_loop(self, task: "TaskType", run_times: list[datetime]) -> Any:
+        if inspect.iscoroutinefunction(task.fn):
+            return await run_coroutine_task(
+                task, cast(str, task.store_alias), run_times, self.logger
+            )
+        return await self.event_loop.run_in_executor(
+            None, run_task, task, cast(str, task.store_alias), run_times, self.logger
+        )
-- 
2.43.0


From 7619848b435c1fa545065064947673d07f082bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 05/54] fix: reserve the task instance before handing the task
 to the executor

The counter was raised after the hand-over: an inline executed task that
submits itself exceeded max_instances, and tasks on two executors changed the
shared counter under different locks. Holding the executor lock while the debug
executor runs a task could deadlock with the scheduler thread.
---
 asyncz/executors/base.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/asyncz/executors/base.py b/asyncz/executors/base.py
index eef1cae..bf98ca7 100644
--- a/asyncz/executors/base.py
+++ b/asyncz/executors/base.py
@@ -4,7 +4,7 @@ import traceback
 from collections.abc import Callable
 from datetime import datetime, timedelta
 from datetime import timezone as tz
-from threading import RLock
+from threading import Lock, RLock
 from traceback import format_tb
 from typing import TYPE_CHECKING, Any, cast
 
@@ -17,6 +17,9 @@ if TYPE_CHECKING:
     from asyncz.schedulers.types import SchedulerType
     from asyncz.tasks.types import TaskType
 
+# the instances are counted per scheduler, so the locks of the single executors are not sufficient
+_instances_lock = Lock()
+
 
 class BaseExecutor(ExecutorType):
     """
@@ -61,22 +64,34 @@ class BaseExecutor(ExecutorType):
         """
         assert self.lock is not None, "This executor has not been started yet."
         assert task.id is not None, "The task is in decorator mode."
-        with self.lock:
+        # reserve the instance first: the task can be finished when do_send_task returns.
+        with _instances_lock:
             if self.instances[task.id] >= task.max_instances:
                 raise MaximumInstancesError(task.id, task.max_instances)
+            self.instances[task.id] += 1
 
+        # the lock is not held here: inline executed tasks can call the scheduler
+        try:
             self.do_send_task(task, run_times)
-            self.instances[task.id] += 1
+        except BaseException:
+            self.release_instance(task.id)
+            raise
+
+    def release_instance(self, task_id: str) -> None:
+        """
+        Gives back the instance which was reserved by send_task.
+        """
+        with _instances_lock:
+            self.instances[task_id] -= 1
+            if self.instances[task_id] <= 0:
+                del self.instances[task_id]
 
     def run_task_success(self, task_id: str, events: list[TaskExecutionEvent]) -> None:
         """
         Called by the executor with the list of generated events when the function run_task has
         been successfully executed.
         """
-        with self.lock:
-            self.instances[task_id] -= 1
-            if self.instances[task_id] == 0:
-                del self.instances[task_id]
+        self.release_instance(task_id)
 
         for event in events or []:
             self.scheduler.dispatch_event(event)
@@ -85,10 +100,7 @@ class BaseExecutor(ExecutorType):
         """
         Called by the executor with the exception if there is an error calling the run_task.
         """
-        with self.lock:
-            self.instances[task_id] -= 1
-            if self.instances[task_id] == 0:
-                del self.instances[task_id]
+        self.release_instance(task_id)
 
         self.scheduler.loggers[self.logger_name].error(
             f"Error running task {task_id}", exc_info=True
-- 
2.43.0


From 1bbd257d0631da3bab092648b7c1799720d5665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 06/54] fix: give the instance back when a pool future was
 cancelled

---
 asyncz/executors/pool.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 2931f97..a9649d0 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -27,15 +27,13 @@ class BasePoolExecutor(BaseExecutor):
         assert task_id is not None, "Cannot send decorator type task"
 
         def callback(fn: Any) -> None:
-            exc, _ = (
-                fn.exception_info()
-                if hasattr(fn, "exception_info")
-                else (fn.exception(), getattr(fn.exception(), "__traceback__", None))
-            )
-            if exc:
+            try:
+                events = fn.result()
+            except BaseException:
+                # includes cancelled futures
                 self.run_task_error(task_id)
             else:
-                self.run_task_success(task_id, fn.result())
+                self.run_task_success(task_id, events)
 
         try:
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
-- 
2.43.0


From d6c3242084fbcc6a6cdbf85724e42188c08eabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 07/54] fix: replace a shut down or broken executor pool with a
 working one

---
 asyncz/executors/pool.py         | 25 +++++++++++++++++++++----
 asyncz/executors/process_pool.py | 12 +++++++++---
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index a9649d0..b3b956b 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -21,6 +21,19 @@ class BasePoolExecutor(BaseExecutor):
     def __init__(self, pool: Any, **kwargs: Any) -> None:
         super().__init__(**kwargs)
         self.pool = pool
+        self.pool_is_shutdown = False
+
+    def create_pool(self) -> Any:
+        """
+        Creates the pool which replaces a broken or shut down one.
+        """
+        return self.pool.__class__(self.pool._max_workers)
+
+    def start(self, scheduler: Any, alias: str) -> None:
+        super().start(scheduler, alias)
+        if self.pool_is_shutdown:
+            self.pool = self.create_pool()
+            self.pool_is_shutdown = False
 
     def do_send_task(self, task: "TaskType", run_times: list[datetime]) -> Any:
         task_id = task.id
@@ -41,7 +54,7 @@ class BasePoolExecutor(BaseExecutor):
             self.scheduler.loggers[self.logger_name].warning(
                 "Process pool is broken. Replacing pool with a new instance."
             )
-            self.pool = self.pool.__class__(self.pool.max_workers)
+            self.pool = self.create_pool()
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
 
         fn.add_done_callback(callback)
@@ -49,6 +62,7 @@ class BasePoolExecutor(BaseExecutor):
     def shutdown(self, wait: bool = True) -> None:
         if self.overwrite_wait is not None:
             wait = self.overwrite_wait
+        self.pool_is_shutdown = True
         self.pool.shutdown(wait, cancel_futures=self.cancel_futures)
 
 
@@ -62,6 +76,9 @@ class ThreadPoolExecutor(BasePoolExecutor):
     """
 
     def __init__(self, max_workers: int = 10, pool_kwargs: Optional[Any] = None, **kwargs: Any):
-        pool_kwargs = pool_kwargs or {}
-        pool = concurrent.futures.ThreadPoolExecutor(int(max_workers), **pool_kwargs)
-        super().__init__(pool, **kwargs)
+        self.max_workers = int(max_workers)
+        self.pool_kwargs = dict(pool_kwargs or {})
+        super().__init__(self.create_pool(), **kwargs)
+
+    def create_pool(self) -> Any:
+        return concurrent.futures.ThreadPoolExecutor(self.max_workers, **self.pool_kwargs)
diff --git a/asyncz/executors/process_pool.py b/asyncz/executors/process_pool.py
index dadc051..21b0c39 100644
--- a/asyncz/executors/process_pool.py
+++ b/asyncz/executors/process_pool.py
@@ -63,11 +63,17 @@ class ProcessPoolExecutor(BasePoolExecutor):
         self, max_workers: int = 10, pool_kwargs: Optional[Any] = None, **kwargs: Any
     ) -> None:
         self.receive_pipe, self.send_pipe = Pipe(False)
-        pool_kwargs = pool_kwargs or {}
-        pool = concurrent.futures.ProcessPoolExecutor(int(max_workers), **pool_kwargs)
-        super().__init__(pool, **kwargs)
+        self.max_workers = int(max_workers)
+        self.pool_kwargs = dict(pool_kwargs or {})
+        super().__init__(self.create_pool(), **kwargs)
+
+    def create_pool(self) -> Any:
+        return concurrent.futures.ProcessPoolExecutor(self.max_workers, **self.pool_kwargs)
 
     def start(self, scheduler: "SchedulerType", alias: str) -> None:
+        if self.pool_is_shutdown:
+            # the old pipe was closed with the pool
+            self.receive_pipe, self.send_pipe = Pipe(False)
         super().start(scheduler, alias)
         assert self.logger is not None, "logger is None"
         # move the old logger to logger_receiver
-- 
2.43.0


From 4e2db181510c28537e8aa63089db2579bd909ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 08/54] fix: release locks when the protected block raises

---
 asyncz/file_locking.py | 6 ++++--
 asyncz/locks.py        | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/asyncz/file_locking.py b/asyncz/file_locking.py
index c5705f0..c2724e7 100644
--- a/asyncz/file_locking.py
+++ b/asyncz/file_locking.py
@@ -123,5 +123,7 @@ else:
 @contextmanager
 def with_lock(f: IO, flags: int) -> Generator[IO, None, None]:
     lock(f, flags)
-    yield f
-    unlock(f)
+    try:
+        yield f
+    finally:
+        unlock(f)
diff --git a/asyncz/locks.py b/asyncz/locks.py
index d9412a0..ad0e088 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -36,9 +36,11 @@ class LockProtected(LockProtectedProtocol):
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
         locked = self.lock.acquire(blocking, -1 if timeout is None else timeout)
-        yield locked
-        if locked:
-            self.lock.release()
+        try:
+            yield locked
+        finally:
+            if locked:
+                self.lock.release()
 
 
 class RLockProtected(LockProtected):
-- 
2.43.0


From 4a0826964649cd9373eac911f92e1e11436ce1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 09/54] fix: a BaseException in a debug executor task must not
 abort the processing pass

---
 asyncz/executors/debug.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/executors/debug.py b/asyncz/executors/debug.py
index 67f9ccd..91b32be 100644
--- a/asyncz/executors/debug.py
+++ b/asyncz/executors/debug.py
@@ -22,7 +22,9 @@ class DebugExecutor(BaseExecutor):
         assert self.logger is not None, "logger is None"
         try:
             events = run_task(task, cast(str, task.store_alias), run_times, self.logger)
-        except Exception:
+        except (KeyboardInterrupt, SystemExit):
+            raise
+        except BaseException:
             self.run_task_error(task.id)
         else:
             self.run_task_success(task.id, events)
-- 
2.43.0


From c9b2f0906abca3775b99e937798f530bb4d9c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 10/54] fix: updating a task which is gone must not bring it
 back in the memory store

---
 asyncz/stores/memory.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/asyncz/stores/memory.py b/asyncz/stores/memory.py
index abe9303..103dc49 100644
--- a/asyncz/stores/memory.py
+++ b/asyncz/stores/memory.py
@@ -68,11 +68,7 @@ class MemoryStore(BaseStore):
         new_timestamp = datetime_to_utc_timestamp(task.next_run_time or None)
 
         if old_task is None:
-            # Not present yet: be tolerant and insert it (dashboard flows may update before first commit)
-            index = self.get_task_index(new_timestamp, task.id)
-            self.tasks.insert(index, (task, new_timestamp))
-            self.tasks_index[task.id] = (task, new_timestamp)
-            return
+            raise TaskLookupError(task.id)
 
         old_index = self.get_task_index(old_timestamp, old_task.id)  # type: ignore
         if old_timestamp == new_timestamp:
-- 
2.43.0


From d9006f7d0e0023f164b2b0602b3706b427f89ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 11/54] fix: keep scheduling when a store operation fails or an
 inline task changes tasks during a pass

---
 asyncz/schedulers/base.py | 185 +++++++++++++++++++++++++-------------
 1 file changed, 123 insertions(+), 62 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 7af59aa..cfc5dde 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -119,6 +119,8 @@ class BaseScheduler(SchedulerType):
         self.shape = resolve_shape()
 
         self.ref_counter: int = 0
+        # counts the changes of tasks in the stores, protected by the store_lock
+        self.store_changes: int = 0
         self.ref_lock: Lock = Lock()
         self.instances: dict[str, int] = defaultdict(lambda: 0)
         self.setup(global_config, **kwargs)
@@ -679,6 +681,7 @@ class BaseScheduler(SchedulerType):
             task.update_task(scheduler=self, **new_updates)
 
             if store:
+                self.store_changes += 1
                 self.lookup_store(store).update_task(task)
 
         self.dispatch_event(TaskEvent(code=TASK_MODIFIED, task_id=task_id, store=store))
@@ -1199,6 +1202,7 @@ class BaseScheduler(SchedulerType):
                 for alias, _store in self.stores.items():
                     if store in (None, alias):
                         try:
+                            self.store_changes += 1
                             _store.delete_task(task_id)
                             store_alias = alias
                             break
@@ -1228,6 +1232,7 @@ class BaseScheduler(SchedulerType):
                 else:
                     self.pending_tasks = []
             else:
+                self.store_changes += 1
                 for alias, _store in self.stores.items():
                     if store in (None, alias):
                         _store.remove_all_tasks()
@@ -1458,6 +1463,7 @@ class BaseScheduler(SchedulerType):
         task.update_task(**replacements)
         # Add the task to the given store
         store = self.lookup_store(task.store_alias)
+        self.store_changes += 1
         try:
             store.add_task(task)
         except ConflictIdError as exc:
@@ -1573,78 +1579,126 @@ class BaseScheduler(SchedulerType):
                     next_wakeup_time = retry_wakeup_time
                 return next_wakeup_time
 
+            retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+            changes = self.store_changes
             try:
                 due_tasks: list[TaskType] = store.get_due_tasks(now)
             except Exception as e:
                 self.loggers[self.logger_name].warning(
                     f'Error getting due tasks from the store "{store_alias}": {e}.'
                 )
-                retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
                 if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
                     next_wakeup_time = retry_wakeup_time
                 return next_wakeup_time
 
+            failed = False
             for task in due_tasks:
                 try:
-                    executor = self.lookup_executor(task.executor)  # type: ignore
+                    due_task: Optional[TaskType] = task
+                    if self.store_changes != changes:
+                        # a task which was executed inline changed the schedule
+                        due_task = store.lookup_task(cast(str, task.id))
+                        if (
+                            due_task is None
+                            or not due_task.next_run_time
+                            or due_task.next_run_time > now
+                        ):
+                            continue
+                    self._process_due_task(now, store_alias, store, due_task, events)
                 except Exception:
-                    self.loggers[self.logger_name].error(
-                        f"Executor lookup ('{task.executor}') failed for task '{task}'. Removing it from the store."
+                    # other tasks are not affected, the failed one is retried
+                    failed = True
+                    self.loggers[self.logger_name].exception(
+                        f"Error processing task '{task}' of the store \"{store_alias}\"."
                     )
-                    self.delete_task(task.id, store_alias)
-                    continue
-
-                run_times = task.get_run_times(self.timezone, now)
-                run_times, coalesced_run_count = self._coalesce_run_times(task, run_times)
-
-                if run_times:
-                    try:
-                        executor.send_task(task, run_times)
-                    except MaximumInstancesError:
-                        self.loggers[self.logger_name].warning(
-                            f"Execution of task '{task}' skipped: Maximum number of running "
-                            f"instances reached '({task.max_instances})'."
-                        )
-                        event = TaskSubmissionEvent(
-                            code=TASK_MAX_INSTANCES,
-                            task_id=task.id,
-                            store=store_alias,
-                            scheduled_run_times=run_times,
-                            source="scheduled",
-                            coalesced_run_count=coalesced_run_count,
-                        )
-                        events.append(event)
-                    except Exception as exc:
-                        self.loggers[self.logger_name].exception(
-                            f"Error submitting task '{task}' to executor '{task.executor}': {exc}"
-                        )
-                    else:
-                        event = TaskSubmissionEvent(
-                            code=TASK_SUBMITTED,
-                            task_id=task.id,
-                            store=store_alias,
-                            scheduled_run_times=run_times,
-                            source="scheduled",
-                            coalesced_run_count=coalesced_run_count,
-                        )
-                        events.append(event)
 
-                    next_run = task.trigger.get_next_trigger_time(  # type: ignore
-                        self.timezone, run_times[-1], now
-                    )
-                    if next_run:
-                        task.update_task(next_run_time=next_run)
-                        store.update_task(task)
-                    else:
-                        self.delete_task(task.id, store_alias)
-
-            store_next_run_time = store.get_next_run_time()
+            store_next_run_time: Optional[datetime] = None
+            try:
+                store_next_run_time = store.get_next_run_time()
+            except Exception as e:
+                failed = True
+                self.loggers[self.logger_name].warning(
+                    f'Error getting the next run time from the store "{store_alias}": {e}.'
+                )
+            if failed and (store_next_run_time is None or store_next_run_time <= now):
+                store_next_run_time = retry_wakeup_time
             if store_next_run_time and (
                 next_wakeup_time is None or store_next_run_time < next_wakeup_time
             ):
                 next_wakeup_time = store_next_run_time.astimezone(self.timezone)
             return next_wakeup_time
 
+    def _process_due_task(
+        self,
+        now: datetime,
+        store_alias: str,
+        store: StoreType,
+        task: TaskType,
+        events: list[SchedulerEvent],
+    ) -> None:
+        try:
+            executor = self.lookup_executor(task.executor)  # type: ignore
+        except Exception:
+            self.loggers[self.logger_name].error(
+                f"Executor lookup ('{task.executor}') failed for task '{task}'. Removing it from the store."
+            )
+            self.delete_task(task.id, store_alias)
+            return
+
+        run_times = task.get_run_times(self.timezone, now)
+        run_times, coalesced_run_count = self._coalesce_run_times(task, run_times)
+        if not run_times:
+            return
+
+        scheduled_for = task.next_run_time
+        changes = self.store_changes
+        try:
+            executor.send_task(task, run_times)
+        except MaximumInstancesError:
+            self.loggers[self.logger_name].warning(
+                f"Execution of task '{task}' skipped: Maximum number of running "
+                f"instances reached '({task.max_instances})'."
+            )
+            event = TaskSubmissionEvent(
+                code=TASK_MAX_INSTANCES,
+                task_id=task.id,
+                store=store_alias,
+                scheduled_run_times=run_times,
+                source="scheduled",
+                coalesced_run_count=coalesced_run_count,
+            )
+            events.append(event)
+        except Exception as exc:
+            self.loggers[self.logger_name].exception(
+                f"Error submitting task '{task}' to executor '{task.executor}': {exc}"
+            )
+        else:
+            event = TaskSubmissionEvent(
+                code=TASK_SUBMITTED,
+                task_id=task.id,
+                store=store_alias,
+                scheduled_run_times=run_times,
+                source="scheduled",
+                coalesced_run_count=coalesced_run_count,
+            )
+            events.append(event)
+
+        if self.store_changes != changes:
+            # the task was executed inline and changed tasks, its changes must survive
+            current_task = store.lookup_task(cast(str, task.id))
+            if current_task is None or current_task.next_run_time != scheduled_for:
+                return
+            task = current_task
+
+        next_run = task.trigger.get_next_trigger_time(  # type: ignore
+            self.timezone, run_times[-1], now
+        )
+        if next_run:
+            task.update_task(next_run_time=next_run)
+            store.update_task(task)
+        else:
+            self.delete_task(task.id, store_alias)
+
     def process_tasks(self) -> Optional[float]:
         """
         Iterates through tasks in every store, starts tasks that are due and figures out how long
@@ -1653,6 +1707,9 @@ class BaseScheduler(SchedulerType):
         If the get_due_tasks() call raises an exception, a new wakeup is scheduled in at least
         store_retry_interval seconds.
         """
+        if self.state == SchedulerState.STATE_STOPPED:
+            self.loggers[self.logger_name].debug("Scheduler is stopped. Not processing tasks.")
+            return None
         if self.state == SchedulerState.STATE_PAUSED:
             self.loggers[self.logger_name].debug("Scheduler is paused. Not processing tasks.")
             return None
@@ -1663,18 +1720,22 @@ class BaseScheduler(SchedulerType):
         events: list[SchedulerEvent] = []
 
         # check for other processing thread
-        with self.store_processing_lock.protected(blocking=False) as blocking_success:
-            if blocking_success:
-                # threading lock
-                with self.store_lock:
-                    for store_alias, store in self.stores.items():
-                        next_wakeup_time = self._process_tasks_of_store(
-                            now, next_wakeup_time, store_alias, store, events
-                        )
-            else:
-                retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
-                if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
+        retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+        try:
+            with self.store_processing_lock.protected(blocking=False) as blocking_success:
+                if blocking_success:
+                    # threading lock
+                    with self.store_lock:
+                        for store_alias, store in tuple(self.stores.items()):
+                            next_wakeup_time = self._process_tasks_of_store(
+                                now, next_wakeup_time, store_alias, store, events
+                            )
+                elif not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
                     next_wakeup_time = retry_wakeup_time
+        except Exception:
+            self.loggers[self.logger_name].exception("Error processing tasks.")
+            if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
+                next_wakeup_time = retry_wakeup_time
 
         for event in events:
             self.dispatch_event(event)
-- 
2.43.0


From c7595eaeb1beb827244341c6dbf28159d26433d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 12/54] fix: run_task is atomic with passes and task changes
 and arms the timer again

---
 asyncz/schedulers/base.py | 45 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index cfc5dde..7ba9382 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -791,6 +791,27 @@ class BaseScheduler(SchedulerType):
             assert task_id.id, "Cannot run a decorator style Task."
             task_id = task_id.id
 
+        events: list[SchedulerEvent] = []
+        try:
+            # atomic in respect to processing passes and changes of the task
+            with self.store_lock:
+                result = self._run_task(task_id, store, force, remove_finished, events)
+        finally:
+            for event in events:
+                self.dispatch_event(event)
+        if self.state == SchedulerState.STATE_RUNNING:
+            # the next run time can be changed
+            self.wakeup()
+        return result
+
+    def _run_task(
+        self,
+        task_id: str,
+        store: Optional[str],
+        force: bool,
+        remove_finished: bool,
+        events: list[SchedulerEvent],
+    ) -> Union[TaskType, None]:
         task, store_alias = self.lookup_task(task_id, store)
         now = datetime.now(self.timezone)
         run_times = task.get_run_times(self.timezone, now)
@@ -805,6 +826,8 @@ class BaseScheduler(SchedulerType):
         assert task.executor is not None, "Task has no executor configured."
         executor = self.lookup_executor(task.executor)
 
+        scheduled_for = task.next_run_time
+        changes = self.store_changes
         try:
             executor.send_task(task, run_times)
         except MaximumInstancesError:
@@ -813,7 +836,7 @@ class BaseScheduler(SchedulerType):
                 task,
                 task.max_instances,
             )
-            self.dispatch_event(
+            events.append(
                 TaskSubmissionEvent(
                     code=TASK_MAX_INSTANCES,
                     task_id=task_id,
@@ -832,7 +855,7 @@ class BaseScheduler(SchedulerType):
             )
             raise
         else:
-            self.dispatch_event(
+            events.append(
                 TaskSubmissionEvent(
                     code=TASK_SUBMITTED,
                     task_id=task_id,
@@ -843,6 +866,16 @@ class BaseScheduler(SchedulerType):
                 )
             )
 
+        if self.store_changes != changes:
+            # the task was executed inline and changed tasks, its changes must survive
+            try:
+                current_task, _ = self.lookup_task(task_id, store_alias)
+            except TaskLookupError:
+                return None
+            if current_task.next_run_time != scheduled_for:
+                return current_task
+            task = current_task
+
         next_run_time = task.trigger.get_next_trigger_time(  # type: ignore[union-attr]
             self.timezone,
             run_times[-1],
@@ -854,14 +887,16 @@ class BaseScheduler(SchedulerType):
             # not create zero-delay feedback loops in tests or dashboards.
             next_run_time = now + timedelta(milliseconds=1)
 
+        self.store_changes += 1
         if next_run_time is None and remove_finished:
-            self.delete_task(task_id, store_alias)
+            self.lookup_store(cast(str, store_alias)).delete_task(task_id)
+            events.append(TaskEvent(code=TASK_REMOVED, task_id=task_id, store=store_alias))
+            self.loggers[self.logger_name].info(f"Removed task {task_id}.")
             return None
 
         task.update_task(next_run_time=next_run_time)
         if store_alias is not None:
-            with self.store_lock:
-                self.lookup_store(store_alias).update_task(task)
+            self.lookup_store(store_alias).update_task(task)
 
         return task
 
-- 
2.43.0


From 300a7f1d8db148115142f8adda6e72e9bd9f033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 13/54] fix: starting and shutting down is serialized, cannot
 deadlock with running tasks and survives failing parts

---
 asyncz/schedulers/asyncio.py |  74 ++++++++++++---------
 asyncz/schedulers/base.py    | 122 ++++++++++++++++++++++++-----------
 asyncz/schedulers/utils.py   |  10 ++-
 3 files changed, 135 insertions(+), 71 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index bc75208..583a598 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -6,6 +6,7 @@ from collections.abc import Sequence
 from threading import Event, Thread
 from typing import TYPE_CHECKING, Any, Optional
 
+from asyncz.exceptions import SchedulerNotRunningError
 from asyncz.executors.asyncio import AsyncIOExecutor
 from asyncz.schedulers.base import BaseScheduler
 from asyncz.schedulers.utils import run_in_event_loop
@@ -29,6 +30,7 @@ class AsyncIOScheduler(BaseScheduler):
 
     isolated_event_loop: bool = False
     event_loop_thread: Optional[Thread] = None
+    _shutdown_handle: Any = None
     timer: Optional[Any] = None
 
     def _init_new_loop(self, event: Event) -> None:
@@ -42,32 +44,46 @@ class AsyncIOScheduler(BaseScheduler):
             loop.close()
 
     def start(self, paused: bool = False) -> bool:
-        if not self.event_loop:
-            try:
-                if self.isolated_event_loop:
-                    raise RuntimeError()
-                self.event_loop = asyncio.get_running_loop()
-            except RuntimeError:
-                event = Event()
-                self.event_loop_thread = Thread(
-                    target=self._init_new_loop, args=[event], daemon=True
-                )
-                self.event_loop_thread.start()
-                event.wait()
-        return super().start(paused)
+        with self.lifecycle_lock:
+            if not self.event_loop:
+                try:
+                    if self.isolated_event_loop:
+                        raise RuntimeError()
+                    self.event_loop = asyncio.get_running_loop()
+                except RuntimeError:
+                    event = Event()
+                    self.event_loop_thread = Thread(
+                        target=self._init_new_loop, args=[event], daemon=True
+                    )
+                    self.event_loop_thread.start()
+                    event.wait()
+            return super().start(paused)
 
     @run_in_event_loop
     def _shutdown(self, wait: bool = True) -> None:
-        if super().shutdown(wait):
-            self.stop_timer()
-            thread = self.event_loop_thread
-            if thread:
-                self.event_loop.stop()
-                self.event_loop = self.event_loop_thread = None
-                with contextlib.suppress(RuntimeError):
-                    thread.join()
+        with self.lifecycle_lock:
+            if super().shutdown(wait):
+                self.stop_timer()
+                handle, self._shutdown_handle = self._shutdown_handle, None
+                thread = self.event_loop_thread
+                if thread:
+                    loop = self.event_loop
+                    if handle is None:
+                        loop.stop()
+                    else:
+                        # coroutine shutdown tasks have to finish first
+                        handle.add_done_callback(lambda _: loop.stop())
+                    self.event_loop = self.event_loop_thread = None
+                    with contextlib.suppress(RuntimeError):
+                        thread.join()
+
+    def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
+        # called in the event loop
+        self._shutdown_handle = asyncio.gather(*coros) if coros else None
 
     def shutdown(self, wait: bool = True) -> bool:
+        if not self.running:
+            raise SchedulerNotRunningError()
         # not decremented yet so +1
         result = self.ref_counter
         self._shutdown(wait)
@@ -109,10 +125,11 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
         isolated_event_loop: Use a fresh, isolated event_loop instead the existing.
     """
 
-    _shutdown_handle: Any = None
-
     async def start(self, paused: bool = False) -> bool:  # type: ignore
-        if self.isolated_event_loop:
+        if self.running:
+            # nested start, keep the event loop
+            pass
+        elif self.isolated_event_loop:
             event = Event()
             self.event_loop_thread = Thread(target=self._init_new_loop, args=[event], daemon=True)
             self.event_loop_thread.start()
@@ -122,12 +139,6 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
 
         return super(AsyncIOScheduler, self).start(paused)
 
-    def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
-        if coros:
-            self._shutdown_handle = asyncio.gather(*coros)
-        else:
-            self._shutdown_handle = None
-
     async def shutdown(self, wait: bool = True) -> bool:  # type: ignore
         # not decremented yet so +1
         result = self.ref_counter
@@ -139,7 +150,8 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             self.stop_timer()
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                # the loop runs in another thread, it has to be woken up
+                self.event_loop.call_soon_threadsafe(self.event_loop.stop)
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
         return result > 1
diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 7ba9382..d22a14e 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -122,6 +122,8 @@ class BaseScheduler(SchedulerType):
         # counts the changes of tasks in the stores, protected by the store_lock
         self.store_changes: int = 0
         self.ref_lock: Lock = Lock()
+        # serializes starts and shutdowns
+        self.lifecycle_lock: RLock = self.create_lock()
         self.instances: dict[str, int] = defaultdict(lambda: 0)
         self.setup(global_config, **kwargs)
 
@@ -185,7 +187,9 @@ class BaseScheduler(SchedulerType):
 
     def decr_refcount(self) -> bool:
         with self.ref_lock:
-            self.ref_counter -= 1
+            # an unmatched shutdown doesn't count
+            if self.ref_counter > 0:
+                self.ref_counter -= 1
             # first start with 0
             if self.ref_counter > 0:
                 return False
@@ -200,42 +204,57 @@ class BaseScheduler(SchedulerType):
         """
         if not self.inc_refcount():
             return False
+        # a shutdown which is in progress has to be finished first
+        with self.lifecycle_lock:
+            try:
+                self._start_components(paused)
+            except BaseException:
+                # the start failed, it can be tried again
+                self.decr_refcount()
+                raise
+
+            self.started_at = datetime.now(self.timezone)
+            self.last_seen_at = self.started_at
+            self.loggers[self.logger_name].info("Scheduler started.")
+            self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
+
+            if not paused:
+                self.wakeup()
+        return True
+
+    def _start_components(self, paused: bool) -> None:
         # should not happen, ref_counter should protect
         assert self.state == SchedulerState.STATE_STOPPED
 
         self.check_uwsgi()
+        # the state is changed with both locks held: what is added concurrently is
+        # either started (added) here or sees the running scheduler
         with self.executor_lock:
             if "default" not in self.executors:
                 self.add_executor(self.create_default_executor(), "default")
 
             for alias, executor in self.executors.items():
                 executor.start(self, alias)
-        #
-        min_dtime = None
-        if self.lock_path:
-            min_dtime = datetime.now(self.timezone) + timedelta(seconds=self.startup_delay)
-
-        with self.store_lock:
-            if "default" not in self.stores:
-                self.add_store(self.create_default_store(), "default")
+            #
+            min_dtime = None
+            if self.lock_path:
+                min_dtime = datetime.now(self.timezone) + timedelta(seconds=self.startup_delay)
 
-            for alias, store in self.stores.items():
-                store.start(self, alias)
+            with self.store_lock:
+                if "default" not in self.stores:
+                    self.add_store(self.create_default_store(), "default")
 
-            for task, replace_existing, start_task in self.pending_tasks:
-                with contextlib.suppress(ConflictIdError):
-                    self.real_add_task(task, replace_existing, start_task, min_dtime)
-            del self.pending_tasks[:]
+                for alias, store in self.stores.items():
+                    store.start(self, alias)
 
-        self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
-        self.started_at = datetime.now(self.timezone)
-        self.last_seen_at = self.started_at
-        self.loggers[self.logger_name].info("Scheduler started.")
-        self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
+                for task, replace_existing, start_task in self.pending_tasks:
+                    with contextlib.suppress(ConflictIdError):
+                        self.real_add_task(task, replace_existing, start_task, min_dtime)
+                del self.pending_tasks[:]
 
-        if not paused:
-            self.wakeup()
-        return True
+                self.state = (
+                    SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
+                )
 
     def _shutdown_fn_helper(self, task: TaskType) -> None:
         assert task.fn is not None
@@ -277,30 +296,55 @@ class BaseScheduler(SchedulerType):
         if self.state == SchedulerState.STATE_STOPPED:
             raise SchedulerNotRunningError()
 
+        with self.lifecycle_lock:
+            self._shutdown_components(wait)
+        return True
+
+    def _shutdown_components(self, wait: bool) -> None:
         self.state = SchedulerState.STATE_STOPPED
         self.last_seen_at = datetime.now(self.timezone)
         self.started_at = None
 
-        with self.executor_lock, self.store_lock:
-            for executor in self.executors.values():
+        with self.executor_lock:
+            executors = tuple(self.executors.values())
+        # no lock is held while running tasks are awaited, they may use the scheduler
+        for executor in executors:
+            try:
                 executor.shutdown(wait)
-            coros = []
-            for _store in self.stores.values():
-                for task in _store.get_all_tasks():
-                    assert task.trigger is not None
-                    if task.trigger.alias == "shutdown":
-                        _store.delete_task(cast(str, task.id))
-                        if inspect.iscoroutinefunction(task.fn):
-                            coros.append(self._ashutdown_fn_helper(task))
-                        else:
-                            self._shutdown_fn_helper(task)
-            self.handle_shutdown_coros(coros)
-            for store in self.stores.values():
-                store.shutdown()
+            except Exception:
+                self.loggers[self.logger_name].exception("Error shutting down an executor.")
+
+        shutdown_tasks: list[TaskType] = []
+        with self.store_lock:
+            stores = tuple(self.stores.values())
+            for _store in stores:
+                try:
+                    for task in _store.get_all_tasks():
+                        assert task.trigger is not None
+                        if task.trigger.alias == "shutdown":
+                            with contextlib.suppress(TaskLookupError):
+                                _store.delete_task(cast(str, task.id))
+                                shutdown_tasks.append(task)
+                except Exception:
+                    self.loggers[self.logger_name].exception("Error loading shutdown tasks.")
+
+        coros = []
+        for task in shutdown_tasks:
+            if inspect.iscoroutinefunction(task.fn):
+                coros.append(self._ashutdown_fn_helper(task))
+            else:
+                self._shutdown_fn_helper(task)
+        self.handle_shutdown_coros(coros)
+
+        with self.store_lock:
+            for store in stores:
+                try:
+                    store.shutdown()
+                except Exception:
+                    self.loggers[self.logger_name].exception("Error shutting down a store.")
 
         self.loggers[self.logger_name].info("Scheduler has been shutdown.")
         self.dispatch_event(SchedulerEvent(code=SCHEDULER_SHUTDOWN))
-        return True
 
     def pause(self) -> None:
         """
diff --git a/asyncz/schedulers/utils.py b/asyncz/schedulers/utils.py
index b994716..b28652b 100644
--- a/asyncz/schedulers/utils.py
+++ b/asyncz/schedulers/utils.py
@@ -11,6 +11,14 @@ def run_in_event_loop(fn: Callable[..., Any]) -> Any:
     @wraps(fn)
     def wrapper(self, *args: Any, **kwargs: Any) -> None:  # type: ignore
         wrapped = partial(fn, self, *args, **kwargs)
-        self.event_loop.call_soon_threadsafe(wrapped)
+        event_loop = self.event_loop
+        if event_loop is None:
+            # not started yet or shut down in the meantime
+            return
+        try:
+            event_loop.call_soon_threadsafe(wrapped)
+        except RuntimeError:
+            if self.running or not event_loop.is_closed():
+                raise
 
     return wrapper
-- 
2.43.0


From 0b54536c4f05af9aed774a20dd0f6dee1dbf157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 14/54] fix: redis store returns tasks due before 1970

---
 asyncz/stores/redis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 3bfb0df..0dba240 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -67,7 +67,7 @@ class RedisStore(BaseStore):
 
     def get_due_tasks(self, now: datetime) -> list["TaskType"]:
         timestamp = datetime_to_utc_timestamp(now)
-        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, 0, timestamp)  # type: ignore
+        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, "-inf", timestamp)  # type: ignore
         if not ids:
             return []
         states: list[Any] = self.redis.hmget(self.tasks_key, ids)  # type: ignore
-- 
2.43.0


From ee8a4d83999517abd860bbcec3e53cdf5cd51ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 15/54] fix: redis store changes tasks atomically and never
 drops a task another process is writing

---
 asyncz/stores/redis.py | 130 +++++++++++++++++++++++++----------------
 1 file changed, 79 insertions(+), 51 deletions(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 0dba240..a30e22d 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -1,5 +1,5 @@
 import pickle
-from collections.abc import Iterable
+from collections.abc import Callable, Iterable
 from datetime import datetime
 from datetime import timezone as tz
 from typing import TYPE_CHECKING, Any, Optional, cast
@@ -11,7 +11,9 @@ from asyncz.tasks.types import TaskType
 from asyncz.utils import datetime_to_utc_timestamp, utc_timestamp_to_datetime
 
 try:
-    from redis import Redis
+    from redis import Redis, WatchError
+    from redis.exceptions import ConnectionError as RedisConnectionError
+    from redis.exceptions import TimeoutError as RedisTimeoutError
 except ImportError:
     raise ImportError("You must install redis to be able to use this store.") from None
 
@@ -71,29 +73,40 @@ class RedisStore(BaseStore):
         if not ids:
             return []
         states: list[Any] = self.redis.hmget(self.tasks_key, ids)  # type: ignore
-        return self.rebuild_tasks(zip(ids, states, strict=False))
+        tasks = self.rebuild_tasks(zip(ids, states, strict=False))
+        # the tasks can be changed between the two requests
+        return [task for task in tasks if task.next_run_time and task.next_run_time <= now]
 
     def rebuild_tasks(self, states: Iterable[tuple[str, Any]]) -> list["TaskType"]:
         tasks = []
-        failed_task_ids = []
 
         for task_id, state in states:
+            if state is None:
+                # was deleted meanwhile
+                continue
             try:
                 tasks.append(self.rebuild_task(state))
-            except BaseException:
+            except Exception:
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{task_id}'. Removing it..."
                 )
-                failed_task_ids.append(task_id)
-
-        if failed_task_ids:
-            with self.redis.pipeline() as pipe:
-                pipe.hdel(self.tasks_key, *failed_task_ids)
-                pipe.zrem(self.run_times_key, *failed_task_ids)
-                pipe.execute()
+                self.remove_undecodable(task_id, state)
 
         return tasks
 
+    def remove_undecodable(self, task_id: str, state: Any) -> None:
+        """
+        Removes a task which can not be restored, except it was replaced meanwhile.
+        """
+
+        def remove(pipe: Any) -> None:
+            if pipe.hget(self.tasks_key, task_id) == state:
+                pipe.multi()
+                pipe.hdel(self.tasks_key, task_id)
+                pipe.zrem(self.run_times_key, task_id)
+
+        self.transaction(remove)
+
     def get_next_run_time(self) -> datetime | None:
         next_run_time: Any = self.redis.zrange(self.run_times_key, 0, 0, withscores=True)
         if next_run_time:
@@ -106,59 +119,74 @@ class RedisStore(BaseStore):
         paused_sort_key = datetime(9999, 12, 31, tzinfo=tz.utc)
         return sorted(tasks, key=lambda task: task.next_run_time or paused_sort_key)
 
+    def transaction(self, change: Callable[[Any], None]) -> None:
+        """
+        Applies the change as one transaction, retried when the tasks were changed meanwhile.
+        """
+        with self.redis.pipeline() as pipe:
+            while True:
+                try:
+                    pipe.watch(self.tasks_key)
+                    change(pipe)
+                except WatchError:
+                    # the connection was lost, nothing is applied yet
+                    continue
+                try:
+                    pipe.execute()
+                    return
+                except WatchError as exc:
+                    # a connection lost now is also reported this way, but the change
+                    # can be applied already and must not be repeated
+                    if isinstance(exc.__context__, (RedisConnectionError, RedisTimeoutError)):
+                        raise exc.__context__ from None
+
     def add_task(self, task: "TaskType") -> None:
         assert task.id
-        if self.redis.hexists(self.tasks_key, task.id):
-            raise ConflictIdError(task.id)
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
 
-        with self.redis.pipeline() as pipe:
+        def add(pipe: Any) -> None:
+            if pipe.hexists(self.tasks_key, task.id):
+                raise ConflictIdError(task.id)
             pipe.multi()
-            pipe.hset(
-                self.tasks_key,
-                task.id,
-                self.conditional_encrypt(
-                    pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                ),  # type: ignore
-            )
+            self.write_task(pipe, task, state)
 
-            if task.next_run_time:
-                pipe.zadd(
-                    self.run_times_key,
-                    {task.id: datetime_to_utc_timestamp(task.next_run_time)},
-                )
-            pipe.execute()
+        self.transaction(add)
 
     def update_task(self, task: "TaskType") -> None:
         assert task.id
-        if not self.redis.hexists(self.tasks_key, task.id):
-            raise TaskLookupError(task.id)
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
 
-        with self.redis.pipeline() as pipe:
-            pipe.hset(
-                self.tasks_key,
-                task.id,
-                self.conditional_encrypt(
-                    pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                ),  # type: ignore
-            )
-            if task.next_run_time:
-                pipe.zadd(
-                    self.run_times_key,
-                    {task.id: datetime_to_utc_timestamp(task.next_run_time)},
-                )
-            else:
-                pipe.zrem(self.run_times_key, task.id)
+        def update(pipe: Any) -> None:
+            if not pipe.hexists(self.tasks_key, task.id):
+                raise TaskLookupError(task.id)
+            pipe.multi()
+            self.write_task(pipe, task, state)
 
-            pipe.execute()
+        self.transaction(update)
 
-    def delete_task(self, task_id: str) -> None:
-        if not self.redis.hexists(self.tasks_key, task_id):
-            raise TaskLookupError(task_id)
+    def write_task(self, pipe: Any, task: "TaskType", state: bytes) -> None:
+        pipe.hset(self.tasks_key, task.id, state)
+        if task.next_run_time:
+            pipe.zadd(
+                self.run_times_key,
+                {task.id: datetime_to_utc_timestamp(task.next_run_time)},
+            )
+        else:
+            pipe.zrem(self.run_times_key, task.id)
 
-        with self.redis.pipeline() as pipe:
+    def delete_task(self, task_id: str) -> None:
+        def delete(pipe: Any) -> None:
+            if not pipe.hexists(self.tasks_key, task_id):
+                raise TaskLookupError(task_id)
+            pipe.multi()
             pipe.hdel(self.tasks_key, task_id)
             pipe.zrem(self.run_times_key, task_id)
-            pipe.execute()
+
+        self.transaction(delete)
 
     def remove_all_tasks(self) -> None:
         with self.redis.pipeline() as pipe:
-- 
2.43.0


From 8ab56ad96f1a3425ed91be18476b835944af5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 16/54] fix: file store replaces task files atomically and
 keeps them on I/O errors

---
 asyncz/stores/file.py | 143 ++++++++++++++++++++++++++----------------
 1 file changed, 90 insertions(+), 53 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 0bbb060..b57c6a4 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -4,7 +4,8 @@ import glob
 import os
 import pickle
 import shutil
-from contextlib import suppress
+from collections.abc import Generator
+from contextlib import contextmanager, suppress
 from datetime import datetime
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Optional, Union, cast
@@ -31,6 +32,9 @@ class FileStore(BaseStore):
     """
 
     forbidden_characters: set[str] = {"/", "\\", "\0", ":"}
+    # task ids can not start with a dot
+    lock_name: str = ".lock"
+    temp_name: str = ".tmp"
 
     def __init__(
         self,
@@ -71,16 +75,52 @@ class FileStore(BaseStore):
             shutil.rmtree(self.directory, ignore_errors=True)
         super().shutdown()
 
+    @contextmanager
+    def locked(self, flags: int) -> Generator[None, None, None]:
+        """
+        Locks the whole directory against other threads and processes.
+        """
+        with (self.directory / self.lock_name).open("ab") as lock_ob, with_lock(lock_ob, flags):
+            yield
+
+    def write_task(self, task: TaskType, task_path: Path) -> None:
+        """
+        Replaces the task file atomically. Requires the exclusive lock.
+        """
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
+        temp_path = self.directory / self.temp_name
+        try:
+            temp_path.write_bytes(state)
+            os.replace(temp_path, task_path)
+        except BaseException:
+            with suppress(OSError):
+                temp_path.unlink(missing_ok=True)
+            raise
+
+    def remove_undecodable(self, task_path: Path, state: bytes) -> None:
+        """
+        Removes a task file which can not be restored, except it was replaced meanwhile.
+        """
+        # it is tried again with the next access
+        with suppress(OSError), self.locked(LOCK_EX):
+            if task_path.read_bytes() == state:
+                task_path.unlink()
+
     def lookup_task(self, task_id: str) -> Optional[TaskType]:
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
+        with self.locked(LOCK_SH):
+            try:
+                state = task_path.read_bytes()
+            except FileNotFoundError:
+                return None
         try:
-            with open(task_path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                task = self.rebuild_task(read_ob.read())
+            return self.rebuild_task(state)
         except Exception:
-            task_path.unlink(missing_ok=True)
-            task = None
-        return task
+            self.remove_undecodable(task_path, state)
+            return None
 
     def rebuild_task(self, state: Any) -> TaskType:
         state = self.deserialize_task_state(pickle.loads(self.conditional_decrypt(state)))
@@ -98,30 +138,35 @@ class FileStore(BaseStore):
         ]
 
     def get_tasks(self) -> list[TaskType]:
-        tasks: list[tuple[TaskType, os.stat_result]] = []
-        with os.scandir(self.directory) as scanner:
+        states: list[tuple[Path, bytes, os.stat_result]] = []
+        with self.locked(LOCK_SH), os.scandir(self.directory) as scanner:
             for entry in scanner:
-                if not entry.name.endswith(self.suffix) or not entry.is_file():
+                if (
+                    entry.name.startswith(".")
+                    or not entry.name.endswith(self.suffix)
+                    or not entry.is_file()
+                ):
                     continue
-                try:
-                    with open(entry.path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                        task = self.rebuild_task(read_ob.read())
-                    tasks.append((task, entry.stat()))
-                except Exception:
-                    with suppress(FileNotFoundError):
-                        os.unlink(entry.path)
-            return [
-                task
-                for task, _ in sorted(
-                    tasks,
-                    key=lambda task_stat: (
-                        int(task_stat[0].next_run_time is None),
-                        task_stat[0].next_run_time,
-                        # sort for task creation not update
-                        task_stat[1].st_ctime,
-                    ),
-                )
-            ]
+                task_path = Path(entry.path)
+                states.append((task_path, task_path.read_bytes(), entry.stat()))
+        tasks: list[tuple[TaskType, os.stat_result]] = []
+        for task_path, state, stat in states:
+            try:
+                tasks.append((self.rebuild_task(state), stat))
+            except Exception:
+                self.remove_undecodable(task_path, state)
+        return [
+            task
+            for task, _ in sorted(
+                tasks,
+                key=lambda task_stat: (
+                    int(task_stat[0].next_run_time is None),
+                    task_stat[0].next_run_time,
+                    # sort for task creation not update
+                    task_stat[1].st_ctime,
+                ),
+            )
+        ]
 
     def get_next_run_time(self) -> Optional[datetime]:
         next_run_time: datetime | None = None
@@ -138,41 +183,33 @@ class FileStore(BaseStore):
     def add_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        try:
-            with task_path.open("xb") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
-        except FileExistsError:
-            raise ConflictIdError(task.id) from None
+        with self.locked(LOCK_EX):
+            if task_path.exists():
+                raise ConflictIdError(task.id)
+            self.write_task(task, task_path)
 
     def update_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        try:
-            with task_path.open("r+b") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.truncate()
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
-        except FileNotFoundError:
-            raise TaskLookupError(task.id) from None
+        with self.locked(LOCK_EX):
+            if not task_path.exists():
+                raise TaskLookupError(task.id)
+            self.write_task(task, task_path)
 
     def delete_task(self, task_id: str) -> None:
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
-        try:
-            task_path.unlink(missing_ok=False)
-        except FileNotFoundError:
-            raise TaskLookupError(task_id) from None
+        with self.locked(LOCK_EX):
+            try:
+                task_path.unlink(missing_ok=False)
+            except FileNotFoundError:
+                raise TaskLookupError(task_id) from None
 
     def remove_all_tasks(self) -> None:
-        for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
-            task_path.unlink(missing_ok=True)
+        with self.locked(LOCK_EX):
+            for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
+                if not task_path.name.startswith("."):
+                    task_path.unlink(missing_ok=True)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__} (directory={self.directory})>"
-- 
2.43.0


From bc215f949ce06e99177c2f3f597af2c175da9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 17/54] fix: mongo and sqlalchemy stores remove undecodable
 records only when unchanged

---
 asyncz/stores/mongo.py      | 11 ++++++-----
 asyncz/stores/sqlalchemy.py | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/asyncz/stores/mongo.py b/asyncz/stores/mongo.py
index 10327c0..f04fbe8 100644
--- a/asyncz/stores/mongo.py
+++ b/asyncz/stores/mongo.py
@@ -79,22 +79,23 @@ class MongoDBStore(BaseStore):
 
     def get_tasks(self, conditions: DictAny) -> list["TaskType"]:
         tasks: list[TaskType] = []
-        failed_task_ids = []
+        failed_documents = []
 
         for document in self.collection.find(
             conditions, ["_id", "state"], sort=[("next_run_time", ASCENDING)]
         ):
             try:
                 tasks.append(self.rebuild_task(document["state"]))
-            except BaseException:
+            except Exception:
                 doc_id = document["_id"]
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{doc_id}'. Removing it..."
                 )
-                failed_task_ids.append(doc_id)
+                failed_documents.append(document)
 
-        if failed_task_ids:
-            self.collection.delete_many({"_id": {"$in": failed_task_ids}})
+        for document in failed_documents:
+            # except it was replaced meanwhile
+            self.collection.delete_one({"_id": document["_id"], "state": document["state"]})
 
         return tasks
 
diff --git a/asyncz/stores/sqlalchemy.py b/asyncz/stores/sqlalchemy.py
index f8b8c85..091a360 100644
--- a/asyncz/stores/sqlalchemy.py
+++ b/asyncz/stores/sqlalchemy.py
@@ -85,7 +85,7 @@ class SQLAlchemyStore(BaseStore):
 
     def get_tasks(self, conditions: Any = None, limit: int = 0) -> list[TaskType]:
         tasks: list[TaskType] = []
-        failed_task_ids = []
+        failed_rows = []
         stmt = self.table.select().order_by(self.table.c.next_run_time.asc().nullslast())
         if conditions is not None:
             stmt = stmt.where(conditions)
@@ -102,11 +102,16 @@ class SQLAlchemyStore(BaseStore):
                     cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                         f"Unable to restore task '{task_id}'. Removing it..."
                     )
-                    failed_task_ids.append(task_id)
+                    failed_rows.append(row)
 
-            if failed_task_ids:
-                stmt2 = self.table.delete().where(self.table.c.id.in_(failed_task_ids))
-                conn.execute(stmt2)
+            for row in failed_rows:
+                # except it was replaced meanwhile
+                conn.execute(
+                    self.table.delete().where(
+                        self.table.c.id == row.id, self.table.c.state == row.state
+                    )
+                )
+            if failed_rows:
                 conn.commit()
         return tasks
 
-- 
2.43.0


From ac1c5ba5ac59c6c9a3c776f25a130f1f09a86fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 18/54] fix: keep a task due in the memory store when storing
 its next run time failed

---
 asyncz/schedulers/base.py | 8 +++++++-
 asyncz/stores/memory.py   | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index d22a14e..fa7f11c 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1773,8 +1773,14 @@ class BaseScheduler(SchedulerType):
             self.timezone, run_times[-1], now
         )
         if next_run:
+            previous_run_time = task.next_run_time
             task.update_task(next_run_time=next_run)
-            store.update_task(task)
+            try:
+                store.update_task(task)
+            except Exception:
+                # the store may hold the same object, it must stay due for the retry
+                task.next_run_time = previous_run_time
+                raise
         else:
             self.delete_task(task.id, store_alias)
 
diff --git a/asyncz/stores/memory.py b/asyncz/stores/memory.py
index 103dc49..0675147 100644
--- a/asyncz/stores/memory.py
+++ b/asyncz/stores/memory.py
@@ -3,7 +3,7 @@ from typing import TYPE_CHECKING, Any, Optional, Union
 
 from asyncz.exceptions import ConflictIdError, TaskLookupError
 from asyncz.stores.base import BaseStore
-from asyncz.utils import datetime_to_utc_timestamp
+from asyncz.utils import datetime_to_utc_timestamp, utc_timestamp_to_datetime
 
 if TYPE_CHECKING:
     from asyncz.tasks.types import TaskType
@@ -45,7 +45,8 @@ class MemoryStore(BaseStore):
         return pending
 
     def get_next_run_time(self) -> Optional[datetime]:
-        return (self.tasks[0][0].next_run_time or None) if self.tasks else None
+        # the order of the tasks follows the stored timestamps
+        return utc_timestamp_to_datetime(self.tasks[0][1]) if self.tasks else None
 
     def get_all_tasks(self) -> list["TaskType"]:
         return [task[0] for task in self.tasks]
-- 
2.43.0


From 0c79f8ddbf54e76c4cb5d5a91efe23b06c9c955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 19/54] fix: let a shutdown wait for the processing pass or
 manual run of another thread

---
 asyncz/schedulers/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index fa7f11c..fda72e9 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -301,7 +301,9 @@ class BaseScheduler(SchedulerType):
         return True
 
     def _shutdown_components(self, wait: bool) -> None:
-        self.state = SchedulerState.STATE_STOPPED
+        # a processing pass or manual run of another thread has to be finished first
+        with self.store_lock:
+            self.state = SchedulerState.STATE_STOPPED
         self.last_seen_at = datetime.now(self.timezone)
         self.started_at = None
 
@@ -839,6 +841,9 @@ class BaseScheduler(SchedulerType):
         try:
             # atomic in respect to processing passes and changes of the task
             with self.store_lock:
+                if not self.running:
+                    # shut down in the meantime
+                    raise SchedulerNotRunningError()
                 result = self._run_task(task_id, store, force, remove_finished, events)
         finally:
             for event in events:
@@ -1811,7 +1816,9 @@ class BaseScheduler(SchedulerType):
                 if blocking_success:
                     # threading lock
                     with self.store_lock:
-                        for store_alias, store in tuple(self.stores.items()):
+                        # can be shut down in the meantime
+                        stores = tuple(self.stores.items()) if self.running else ()
+                        for store_alias, store in stores:
                             next_wakeup_time = self._process_tasks_of_store(
                                 now, next_wakeup_time, store_alias, store, events
                             )
-- 
2.43.0


From a0c4817bb56ccf76f499334011f1d29dfc2b70c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 20/54] fix: restart a scheduler in another event loop and
 during a shutdown

---
 asyncz/schedulers/asyncio.py | 43 +++++++++++++++++++++++++++---------
 asyncz/schedulers/utils.py   |  9 ++++++--
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index 583a598..02a80ee 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import asyncio
 import contextlib
 from collections.abc import Sequence
-from threading import Event, Thread
+from threading import Event, Lock, Thread
 from typing import TYPE_CHECKING, Any, Optional
 
 from asyncz.exceptions import SchedulerNotRunningError
@@ -30,6 +30,7 @@ class AsyncIOScheduler(BaseScheduler):
 
     isolated_event_loop: bool = False
     event_loop_thread: Optional[Thread] = None
+    _event_loop_detected: bool = False
     _shutdown_handle: Any = None
     timer: Optional[Any] = None
 
@@ -50,6 +51,7 @@ class AsyncIOScheduler(BaseScheduler):
                     if self.isolated_event_loop:
                         raise RuntimeError()
                     self.event_loop = asyncio.get_running_loop()
+                    self._event_loop_detected = True
                 except RuntimeError:
                     event = Event()
                     self.event_loop_thread = Thread(
@@ -57,7 +59,11 @@ class AsyncIOScheduler(BaseScheduler):
                     )
                     self.event_loop_thread.start()
                     event.wait()
-            return super().start(paused)
+            try:
+                return super().start(paused)
+            finally:
+                if not self.running:
+                    self._forget_event_loop()
 
     @run_in_event_loop
     def _shutdown(self, wait: bool = True) -> None:
@@ -76,6 +82,14 @@ class AsyncIOScheduler(BaseScheduler):
                     self.event_loop = self.event_loop_thread = None
                     with contextlib.suppress(RuntimeError):
                         thread.join()
+                else:
+                    self._forget_event_loop()
+
+    def _forget_event_loop(self) -> None:
+        # the next start can happen in another event loop
+        if self._event_loop_detected:
+            self.event_loop = None
+            self._event_loop_detected = False
 
     def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
         # called in the event loop
@@ -92,6 +106,7 @@ class AsyncIOScheduler(BaseScheduler):
     def _setup(self, config: Any) -> None:
         self.event_loop = maybe_ref(config.pop("event_loop", None))
         self.isolated_event_loop = bool(config.pop("isolated_event_loop", False))
+        self._timer_lock = Lock()
         super()._setup(config)
 
     def start_timer(self, wait_seconds: Optional[float] = None) -> None:
@@ -106,9 +121,13 @@ class AsyncIOScheduler(BaseScheduler):
 
     @run_in_event_loop
     def wakeup(self) -> None:
+        event_loop = self.event_loop
         self.stop_timer()
         wait_seconds = self.process_tasks()
-        self.start_timer(wait_seconds)
+        with self._timer_lock:
+            # the scheduler can be restarted in another event loop meanwhile
+            if self.event_loop is event_loop:
+                self.start_timer(wait_seconds)
 
     def create_default_executor(self) -> BaseExecutor:
         return AsyncIOExecutor()
@@ -133,7 +152,8 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             event = Event()
             self.event_loop_thread = Thread(target=self._init_new_loop, args=[event], daemon=True)
             self.event_loop_thread.start()
-            await asyncio.to_thread(event.wait)
+            # not awaited, a concurrent start must not create another event loop
+            event.wait()
         else:
             self.event_loop = asyncio.get_running_loop()
 
@@ -143,19 +163,22 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
         # not decremented yet so +1
         result = self.ref_counter
         if super(AsyncIOScheduler, self).shutdown(wait):
-            handle = self._shutdown_handle
+            # everything is detached before awaiting, it can be started again meanwhile
+            with self._timer_lock:
+                self.stop_timer()
+                event_loop, thread = self.event_loop, self.event_loop_thread
+                if thread:
+                    self.event_loop = self.event_loop_thread = None
+            handle, self._shutdown_handle = self._shutdown_handle, None
             if handle is not None:
-                self._shutdown_handle = None
                 await handle
-            self.stop_timer()
-            thread = self.event_loop_thread
             if thread:
                 # the loop runs in another thread, it has to be woken up
-                self.event_loop.call_soon_threadsafe(self.event_loop.stop)
-                self.event_loop = self.event_loop_thread = None
+                event_loop.call_soon_threadsafe(event_loop.stop)
                 await asyncio.to_thread(thread.join)
         return result > 1
 
     def _setup(self, config: Any) -> None:
         self.isolated_event_loop = bool(config.pop("isolated_event_loop", False))
+        self._timer_lock = Lock()
         super(AsyncIOScheduler, self)._setup(config)
diff --git a/asyncz/schedulers/utils.py b/asyncz/schedulers/utils.py
index b28652b..80b663b 100644
--- a/asyncz/schedulers/utils.py
+++ b/asyncz/schedulers/utils.py
@@ -1,5 +1,5 @@
 from collections.abc import Callable
-from functools import partial, wraps
+from functools import wraps
 from typing import Any
 
 
@@ -10,8 +10,13 @@ def run_in_event_loop(fn: Callable[..., Any]) -> Any:
 
     @wraps(fn)
     def wrapper(self, *args: Any, **kwargs: Any) -> None:  # type: ignore
-        wrapped = partial(fn, self, *args, **kwargs)
         event_loop = self.event_loop
+
+        def wrapped() -> None:
+            # not for a period of the scheduler which is already over
+            if self.event_loop is event_loop:
+                fn(self, *args, **kwargs)
+
         if event_loop is None:
             # not started yet or shut down in the meantime
             return
-- 
2.43.0


From c675b93bc806427faa0a914438849d4b8659c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 21/54] fix: restore persisted tasks whose trigger has no own
 state (shutdown trigger)

---
 asyncz/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/state.py b/asyncz/state.py
index ae4b0ba..a154cb8 100644
--- a/asyncz/state.py
+++ b/asyncz/state.py
@@ -14,6 +14,10 @@ class BaseState(BaseModel):
         """
         Retrieves the data pickled and sets the state for Pydantic compatible fashion.
         """
+        if isinstance(state, dict):
+            # the default state, of subclasses which don't define an own one
+            super().__setstate__(state)
+            return self
         state.model_config.update(self.model_config)
         object_setattr(self, "__dict__", state.__dict__)
         object_setattr(self, "__pydantic_fields_set__", state.__pydantic_fields_set__)
-- 
2.43.0


From e7b155a3b22a760d8d7ed39622dcfb5013c66b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 22/54] fix: keep the mutual exclusion when a scheduler removes
 the lock file on shutdown

---
 asyncz/locks.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index ad0e088..eb06ccb 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -4,7 +4,7 @@ import os
 from collections.abc import Generator
 from contextlib import contextmanager, suppress
 from threading import Lock, RLock
-from typing import Any, Optional
+from typing import IO, Any, Optional
 
 from .file_locking import LOCK_EX, LOCK_NB, lock, unlock
 from .protocols import LockProtectedProtocol
@@ -63,17 +63,30 @@ class FileLockProtected(LockProtectedProtocol):
     def protected(
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
-        with open(self.file_path, "w+") as file:
-            flags = LOCK_EX
-            if not blocking:
-                flags |= LOCK_NB
-            locked = lock(file, flags)
-            try:
-                yield locked
-            finally:
-                if locked:
-                    unlock(file)
+        flags = LOCK_EX
+        if not blocking:
+            flags |= LOCK_NB
+        while True:
+            with open(self.file_path, "w+") as file:
+                locked = lock(file, flags)
+                try:
+                    if locked and not self._is_current(file):
+                        # removed by a shutdown in the meantime, others use a new file
+                        continue
+                    yield locked
+                    return
+                finally:
+                    if locked:
+                        unlock(file)
+
+    def _is_current(self, file: IO[Any]) -> bool:
+        try:
+            return os.path.samestat(os.fstat(file.fileno()), os.stat(self.file_path))
+        except FileNotFoundError:
+            return False
 
     def shutdown(self) -> None:
-        with suppress(FileNotFoundError):
-            os.remove(self.file_path)
+        # others can use the file, only who has the lock is allowed to remove it
+        with suppress(OSError), self.protected() as locked:
+            if locked:
+                os.remove(self.file_path)
-- 
2.43.0


From 7bfa9660520facf21f34ecaffb3ee7e3dd25f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 23/54] fix: process the other stores when the lock of one
 store is not available

---
 asyncz/schedulers/base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index fda72e9..d14dffb 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1819,9 +1819,17 @@ class BaseScheduler(SchedulerType):
                         # can be shut down in the meantime
                         stores = tuple(self.stores.items()) if self.running else ()
                         for store_alias, store in stores:
-                            next_wakeup_time = self._process_tasks_of_store(
-                                now, next_wakeup_time, store_alias, store, events
-                            )
+                            try:
+                                next_wakeup_time = self._process_tasks_of_store(
+                                    now, next_wakeup_time, store_alias, store, events
+                                )
+                            except Exception:
+                                # e.g. the lock isn't available, other stores are not affected
+                                self.loggers[self.logger_name].exception(
+                                    f'Error processing the store "{store_alias}".'
+                                )
+                                if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
+                                    next_wakeup_time = retry_wakeup_time
                 elif not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
                     next_wakeup_time = retry_wakeup_time
         except Exception:
-- 
2.43.0


From 402cdeaee96157dee3ab0a7f82dc33350b6a85e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:14 +0000
Subject: [PATCH 24/54] fix: add and remove executors without racing with the
 submission of tasks

---
 asyncz/schedulers/base.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index d14dffb..77bb50b 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -229,7 +229,7 @@ class BaseScheduler(SchedulerType):
         self.check_uwsgi()
         # the state is changed with both locks held: what is added concurrently is
         # either started (added) here or sees the running scheduler
-        with self.executor_lock:
+        with self.store_lock, self.executor_lock:
             if "default" not in self.executors:
                 self.add_executor(self.create_default_executor(), "default")
 
@@ -240,21 +240,18 @@ class BaseScheduler(SchedulerType):
             if self.lock_path:
                 min_dtime = datetime.now(self.timezone) + timedelta(seconds=self.startup_delay)
 
-            with self.store_lock:
-                if "default" not in self.stores:
-                    self.add_store(self.create_default_store(), "default")
+            if "default" not in self.stores:
+                self.add_store(self.create_default_store(), "default")
 
-                for alias, store in self.stores.items():
-                    store.start(self, alias)
+            for alias, store in self.stores.items():
+                store.start(self, alias)
 
-                for task, replace_existing, start_task in self.pending_tasks:
-                    with contextlib.suppress(ConflictIdError):
-                        self.real_add_task(task, replace_existing, start_task, min_dtime)
-                del self.pending_tasks[:]
+            for task, replace_existing, start_task in self.pending_tasks:
+                with contextlib.suppress(ConflictIdError):
+                    self.real_add_task(task, replace_existing, start_task, min_dtime)
+            del self.pending_tasks[:]
 
-                self.state = (
-                    SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
-                )
+            self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
 
     def _shutdown_fn_helper(self, task: TaskType) -> None:
         assert task.fn is not None
@@ -427,7 +424,8 @@ class BaseScheduler(SchedulerType):
         alias: str = "default",
         **executor_options: Any,
     ) -> None:
-        with self.executor_lock:
+        # tasks are submitted with the store_lock held: never to a half started executor
+        with self.store_lock, self.executor_lock:
             if alias in self.executors:
                 raise ValueError(
                     f"This scheduler already has an executor by the alias of '{alias}'."
@@ -452,7 +450,8 @@ class BaseScheduler(SchedulerType):
         """
         Removes the executor by the given alias from this scheduler.
         """
-        with self.executor_lock:
+        # tasks are submitted with the store_lock held: never to a removed executor
+        with self.store_lock, self.executor_lock:
             executor = self.lookup_executor(alias)
             del self.executors[alias]
 
-- 
2.43.0


From 25b2a674171abf92bee728dbff36dabc6fa26cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:14 +0000
Subject: [PATCH 25/54] fix: capture task snapshots while the task cannot
 change

---
 asyncz/schedulers/base.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 77bb50b..f070fea 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1002,8 +1002,10 @@ class BaseScheduler(SchedulerType):
         scheduler metadata.
         """
 
-        task = self.get_task(task_id, store)
-        return task.snapshot() if task is not None else None
+        # stores can return the live task, it must not change while it is captured
+        with self.store_lock:
+            task = self.get_task(task_id, store)
+            return task.snapshot() if task is not None else None
 
     def get_task_infos(
         self,
@@ -1045,7 +1047,9 @@ class BaseScheduler(SchedulerType):
                 else TaskScheduleState(str(schedule_state).strip().lower())
             )
 
-        infos = [task.snapshot() for task in self.get_tasks(store)]
+        # stores can return the live tasks, they must not change while they are captured
+        with self.store_lock:
+            infos = [task.snapshot() for task in self.get_tasks(store)]
         if resolved_state is not None:
             infos = [info for info in infos if info.schedule_state is resolved_state]
 
@@ -1128,16 +1132,20 @@ class BaseScheduler(SchedulerType):
         if not 1 <= count <= 50:
             raise ValueError("count must be between 1 and 50.")
 
-        task = self.get_task(task_id, store)
-        if task is None:
-            return None
+        # stores can return the live task, it must not change while it is captured
+        with self.store_lock:
+            task = self.get_task(task_id, store)
+            if task is None:
+                return None
+            snapshot = task.snapshot()
+            trigger = task.trigger
+            next_run_time = task.next_run_time
 
         preview_now = to_datetime(now or datetime.now(self.timezone), self.timezone, "now")
         assert preview_now is not None
-        trigger = task.trigger
         if trigger is None:
             return TaskRunPreview(
-                task=task.snapshot(),
+                task=snapshot,
                 timezone=str(self.timezone),
                 generated_at=preview_now,
                 requested_count=count,
@@ -1146,7 +1154,7 @@ class BaseScheduler(SchedulerType):
             )
 
         run_times: list[datetime] = []
-        next_run_time = task.next_run_time or trigger.get_next_trigger_time(
+        next_run_time = next_run_time or trigger.get_next_trigger_time(
             self.timezone, None, preview_now
         )
         exhausted = next_run_time is None
@@ -1160,7 +1168,7 @@ class BaseScheduler(SchedulerType):
             exhausted = next_run_time is None
 
         return TaskRunPreview(
-            task=task.snapshot(),
+            task=snapshot,
             timezone=str(self.timezone),
             generated_at=preview_now,
             requested_count=count,
-- 
2.43.0


From 62d113d2d36de82fad9d871d5249f01bc860f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 26/54] fix: record submission and execution of a run as one
 step each in the run history

---
 asyncz/contrib/dashboard/history.py | 163 +++++++++++++++-------------
 1 file changed, 85 insertions(+), 78 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 0bc53e4..bfbf2dd 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -143,14 +143,14 @@ class MemoryRunHistoryStorage:
 
     def summary(self) -> dict[str, int]:
         with self._lock:
-            records = list(self._records.values())
+            statuses = [record.status for record in self._records.values()]
         return {
-            "total": len(records),
-            "running": sum(1 for record in records if record.status == "running"),
-            "succeeded": sum(1 for record in records if record.status == "succeeded"),
-            "failed": sum(1 for record in records if record.status == "failed"),
-            "missed": sum(1 for record in records if record.status == "missed"),
-            "max_instances": sum(1 for record in records if record.status == "max_instances"),
+            "total": len(statuses),
+            "running": statuses.count("running"),
+            "succeeded": statuses.count("succeeded"),
+            "failed": statuses.count("failed"),
+            "missed": statuses.count("missed"),
+            "max_instances": statuses.count("max_instances"),
         }
 
     def record_submission(
@@ -160,32 +160,36 @@ class MemoryRunHistoryStorage:
         scheduler: Any,
         log_storage: LogStorage | None = None,
     ) -> list[RunRecord]:
-        now = _utc_now()
         source = str(getattr(event, "source", None) or "scheduled")
         status = "max_instances" if event.code == TASK_MAX_INSTANCES else "running"
+        metadata = _task_metadata(scheduler, event.task_id, event.store)
+        scheduler_identity = event.scheduler_identity or _scheduler_identity(scheduler)
         records: list[RunRecord] = []
 
         for scheduled_run_time in event.scheduled_run_times:
-            record = self._upsert(
-                task_id=event.task_id,
-                store=event.store,
-                scheduled_run_time=scheduled_run_time,
-                scheduler=scheduler,
-                scheduler_identity=event.scheduler_identity,
-                now=now,
-            )
-            was_terminal = record.status in TERMINAL_STATUSES
-            record.source = source
-            record.coalesced_run_count = max(
-                record.coalesced_run_count,
-                event.coalesced_run_count,
-            )
-            record.submitted_at = record.submitted_at or (record.finished_at or now)
-            if record.status not in TERMINAL_STATUSES:
-                record.status = status
-            if status == "max_instances":
-                record.finished_at = record.finished_at or now
-            record.updated_at = now
+            # the execution of this run may be recorded by another thread meanwhile
+            with self._lock:
+                now = _utc_now()
+                record = self._upsert(
+                    task_id=event.task_id,
+                    store=event.store,
+                    scheduled_run_time=scheduled_run_time,
+                    metadata=metadata,
+                    scheduler_identity=scheduler_identity,
+                    now=now,
+                )
+                was_terminal = record.status in TERMINAL_STATUSES
+                record.source = source
+                record.coalesced_run_count = max(
+                    record.coalesced_run_count,
+                    event.coalesced_run_count,
+                )
+                record.submitted_at = record.submitted_at or (record.finished_at or now)
+                if record.status not in TERMINAL_STATUSES:
+                    record.status = status
+                if status == "max_instances":
+                    record.finished_at = record.finished_at or now
+                record.updated_at = now
             records.append(record)
 
             if log_storage is not None:
@@ -213,26 +217,32 @@ class MemoryRunHistoryStorage:
         scheduler: Any,
         log_storage: LogStorage | None = None,
     ) -> RunRecord:
-        now = _utc_now()
-        record = self._upsert(
-            task_id=event.task_id,
-            store=event.store,
-            scheduled_run_time=event.scheduled_run_time,
-            scheduler=scheduler,
-            scheduler_identity=event.scheduler_identity,
-            now=now,
-        )
-        record.finished_at = now
-        record.submitted_at = record.submitted_at or now
-        record.status = _status_from_execution_code(event.code)
-        record.return_value = (
-            _safe_repr(event.return_value) if event.return_value is not None else None
-        )
-        record.exception_type = _exception_type(event.exception)
-        record.exception_message = _safe_str(event.exception)
-        record.exception = _safe_repr(event.exception) if event.exception is not None else None
-        record.traceback = event.traceback
-        record.updated_at = now
+        metadata = _task_metadata(scheduler, event.task_id, event.store)
+        scheduler_identity = event.scheduler_identity or _scheduler_identity(scheduler)
+        return_value = _safe_repr(event.return_value) if event.return_value is not None else None
+        exception_message = _safe_str(event.exception)
+        exception = _safe_repr(event.exception) if event.exception is not None else None
+
+        # the submission of this run may be recorded by another thread meanwhile
+        with self._lock:
+            now = _utc_now()
+            record = self._upsert(
+                task_id=event.task_id,
+                store=event.store,
+                scheduled_run_time=event.scheduled_run_time,
+                metadata=metadata,
+                scheduler_identity=scheduler_identity,
+                now=now,
+            )
+            record.finished_at = now
+            record.submitted_at = record.submitted_at or now
+            record.status = _status_from_execution_code(event.code)
+            record.return_value = return_value
+            record.exception_type = _exception_type(event.exception)
+            record.exception_message = exception_message
+            record.exception = exception
+            record.traceback = event.traceback
+            record.updated_at = now
 
         if log_storage is not None:
             if record.status == "succeeded":
@@ -267,41 +277,38 @@ class MemoryRunHistoryStorage:
         task_id: str,
         store: str | None,
         scheduled_run_time: Any,
-        scheduler: Any,
+        metadata: dict[str, Any],
         scheduler_identity: str | None,
         now: datetime,
     ) -> RunRecord:
+        # requires self._lock to be held
         normalized_run_time = _normalize_run_time(scheduled_run_time)
         key = _run_key(task_id, store, normalized_run_time)
-        metadata = _task_metadata(scheduler, task_id, store)
-        run_scheduler_identity = scheduler_identity or _scheduler_identity(scheduler)
-
-        with self._lock:
-            run_id = self._key_index.get(key)
-            if run_id is None:
-                run_id = _run_id(key)
-                self._key_index[key] = run_id
-                record = RunRecord(
-                    run_id=run_id,
-                    task_id=task_id,
-                    store=store,
-                    scheduled_run_time=normalized_run_time,
-                    scheduler_identity=run_scheduler_identity,
-                    created_at=now,
-                    updated_at=now,
-                    **metadata,
-                )
-                self._records[run_id] = record
-                self._order.append(run_id)
-                self._trim()
-            else:
-                record = self._records[run_id]
-                for field, value in metadata.items():
-                    if value and not getattr(record, field):
-                        setattr(record, field, value)
-                if run_scheduler_identity and not record.scheduler_identity:
-                    record.scheduler_identity = run_scheduler_identity
-            return record
+        run_id = self._key_index.get(key)
+        if run_id is None:
+            run_id = _run_id(key)
+            self._key_index[key] = run_id
+            record = RunRecord(
+                run_id=run_id,
+                task_id=task_id,
+                store=store,
+                scheduled_run_time=normalized_run_time,
+                scheduler_identity=scheduler_identity,
+                created_at=now,
+                updated_at=now,
+                **metadata,
+            )
+            self._records[run_id] = record
+            self._order.append(run_id)
+            self._trim()
+        else:
+            record = self._records[run_id]
+            for field, value in metadata.items():
+                if value and not getattr(record, field):
+                    setattr(record, field, value)
+            if scheduler_identity and not record.scheduler_identity:
+                record.scheduler_identity = scheduler_identity
+        return record
 
     def _trim(self) -> None:
         while len(self._order) > self.maxlen:
-- 
2.43.0


From 1b7fcbc0fac93d7735524dd799a8b264d279c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:03 +0000
Subject: [PATCH 27/54] fix: reinstalling dashboard listeners or the log
 handler neither loses nor duplicates events

---
 asyncz/contrib/dashboard/events.py       | 36 ++++++++++-----
 asyncz/contrib/dashboard/history.py      | 56 ++++++++++++++++--------
 asyncz/contrib/dashboard/logs/handler.py | 27 +++++++-----
 3 files changed, 78 insertions(+), 41 deletions(-)

diff --git a/asyncz/contrib/dashboard/events.py b/asyncz/contrib/dashboard/events.py
index 7dc4147..48a0fc2 100644
--- a/asyncz/contrib/dashboard/events.py
+++ b/asyncz/contrib/dashboard/events.py
@@ -165,6 +165,7 @@ class MemorySchedulerEventStorage:
 
 _storage: MemorySchedulerEventStorage | None = None
 _installed_listeners: dict[int, tuple[weakref.ReferenceType[Any], Any]] = {}
+_install_lock = threading.Lock()
 
 
 def get_scheduler_event_storage(
@@ -178,23 +179,36 @@ def get_scheduler_event_storage(
     return _storage
 
 
+class _SchedulerEventListener:
+    def __init__(self, scheduler: Any, storage: MemorySchedulerEventStorage) -> None:
+        self.scheduler = scheduler
+        self.storage = storage
+
+    def __call__(self, event: SchedulerEvent) -> None:
+        self.storage.append(event, scheduler=self.scheduler)
+
+
 def install_scheduler_event_listener(
     scheduler: Any,
     *,
     storage: MemorySchedulerEventStorage | None = None,
 ) -> MemorySchedulerEventStorage:
-    event_storage = get_scheduler_event_storage(storage)
     key = id(scheduler)
-    installed = _installed_listeners.get(key)
-    if installed is not None and installed[0]() is scheduler:
-        with contextlib.suppress(Exception):
-            scheduler.remove_listener(installed[1])
-
-    def _listener(event: SchedulerEvent) -> None:
-        event_storage.append(event, scheduler=scheduler)
-
-    scheduler.add_listener(_listener, mask=ALL_EVENTS)
-    _installed_listeners[key] = (weakref.ref(scheduler), _listener)
+    with _install_lock:
+        event_storage = get_scheduler_event_storage(storage)
+        installed = _installed_listeners.get(key)
+        if installed is not None and installed[0]() is scheduler:
+            listener = installed[1]
+            if any(item[0] is listener for item in tuple(getattr(scheduler, "listeners", ()))):
+                # redirect the listener in place: no event is lost or recorded twice
+                listener.storage = event_storage
+                return event_storage
+            with contextlib.suppress(Exception):
+                scheduler.remove_listener(listener)
+
+        listener = _SchedulerEventListener(scheduler, event_storage)
+        scheduler.add_listener(listener, mask=ALL_EVENTS)
+        _installed_listeners[key] = (weakref.ref(scheduler), listener)
     return event_storage
 
 
diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index bfbf2dd..51801e4 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -323,6 +323,7 @@ class MemoryRunHistoryStorage:
 
 _storage: MemoryRunHistoryStorage | None = None
 _installed_listeners: dict[int, tuple[weakref.ReferenceType[Any], Any]] = {}
+_install_lock = threading.Lock()
 
 
 def get_run_history_storage(
@@ -336,34 +337,53 @@ def get_run_history_storage(
     return _storage
 
 
-def install_run_history_listener(
-    scheduler: Any,
-    *,
-    storage: MemoryRunHistoryStorage | None = None,
-    log_storage: LogStorage | None = None,
-) -> MemoryRunHistoryStorage:
-    history_storage = get_run_history_storage(storage)
-    key = id(scheduler)
-    installed = _installed_listeners.get(key)
-    if installed is not None and installed[0]() is scheduler:
-        with contextlib.suppress(Exception):
-            scheduler.remove_listener(installed[1])
-
-    def _listener(event: SchedulerEvent) -> None:
+class _RunHistoryListener:
+    def __init__(
+        self,
+        scheduler: Any,
+        storage: MemoryRunHistoryStorage,
+        log_storage: LogStorage | None,
+    ) -> None:
+        self.scheduler = scheduler
+        self.target = (storage, log_storage)
+
+    def __call__(self, event: SchedulerEvent) -> None:
+        storage, log_storage = self.target
         if isinstance(event, TaskSubmissionEvent) and event.code in {
             TASK_SUBMITTED,
             TASK_MAX_INSTANCES,
         }:
-            history_storage.record_submission(event, scheduler=scheduler, log_storage=log_storage)
+            storage.record_submission(event, scheduler=self.scheduler, log_storage=log_storage)
         elif isinstance(event, TaskExecutionEvent) and event.code in {
             TASK_EXECUTED,
             TASK_ERROR,
             TASK_MISSED,
         }:
-            history_storage.record_execution(event, scheduler=scheduler, log_storage=log_storage)
+            storage.record_execution(event, scheduler=self.scheduler, log_storage=log_storage)
+
 
-    scheduler.add_listener(_listener, mask=RUN_EVENT_MASK)
-    _installed_listeners[key] = (weakref.ref(scheduler), _listener)
+def install_run_history_listener(
+    scheduler: Any,
+    *,
+    storage: MemoryRunHistoryStorage | None = None,
+    log_storage: LogStorage | None = None,
+) -> MemoryRunHistoryStorage:
+    key = id(scheduler)
+    with _install_lock:
+        history_storage = get_run_history_storage(storage)
+        installed = _installed_listeners.get(key)
+        if installed is not None and installed[0]() is scheduler:
+            listener = installed[1]
+            if any(item[0] is listener for item in tuple(getattr(scheduler, "listeners", ()))):
+                # redirect the listener in place: no event is lost or recorded twice
+                listener.target = (history_storage, log_storage)
+                return history_storage
+            with contextlib.suppress(Exception):
+                scheduler.remove_listener(listener)
+
+        listener = _RunHistoryListener(scheduler, history_storage, log_storage)
+        scheduler.add_listener(listener, mask=RUN_EVENT_MASK)
+        _installed_listeners[key] = (weakref.ref(scheduler), listener)
     return history_storage
 
 
diff --git a/asyncz/contrib/dashboard/logs/handler.py b/asyncz/contrib/dashboard/logs/handler.py
index 8173ec6..54bf58e 100644
--- a/asyncz/contrib/dashboard/logs/handler.py
+++ b/asyncz/contrib/dashboard/logs/handler.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import contextlib
 import logging
+import threading
 from datetime import datetime, timezone
 from typing import Any, Optional
 
@@ -121,6 +122,7 @@ def get_task_logger(task_id: str, name: str = "asyncz") -> TaskLoggerAdapter:
 
 _handler: Optional[logging.Handler] = None
 """Stores the singleton instance of the installed log handler."""
+_install_lock = threading.Lock()
 
 
 def install_task_log_handler(storage: LogStorage, level: int = logging.INFO) -> logging.Handler:
@@ -139,16 +141,17 @@ def install_task_log_handler(storage: LogStorage, level: int = logging.INFO) ->
     """
     global _handler
     storage = storage or get_log_storage()
-    if _handler is not None:
-        if isinstance(_handler, TaskLogHandler):
-            _handler.storage = storage
-        _handler.setLevel(level)
+    with _install_lock:
+        if _handler is not None:
+            if isinstance(_handler, TaskLogHandler):
+                _handler.storage = storage
+            _handler.setLevel(level)
+            return _handler
+
+        _handler = TaskLogHandler(storage, level=level)
+
+        root = logging.getLogger("asyncz")
+        root.setLevel(min(root.level or level, level))
+        root.addHandler(_handler)
+        root.propagate = True  # let parent/handlers still receive if needed
         return _handler
-
-    _handler = TaskLogHandler(storage, level=level)
-
-    root = logging.getLogger("asyncz")
-    root.setLevel(min(root.level or level, level))
-    root.addHandler(_handler)
-    root.propagate = True  # let parent/handlers still receive if needed
-    return _handler
-- 
2.43.0


From 313cba682e9ac0eeff9eda10584e598eddd5faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:03 +0000
Subject: [PATCH 28/54] fix: give runs of different tasks and stores different
 ids in the run history

---
 asyncz/contrib/dashboard/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 51801e4..4cf65a0 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -455,7 +455,8 @@ def _run_key(
 
 
 def _run_id(key: tuple[str, str | None, str]) -> str:
-    raw = "|".join(part or "" for part in key)
+    # quote the parts, so that different keys never share an id
+    raw = repr(key)
     return hashlib.sha256(raw.encode()).hexdigest()[:20]
 
 
-- 
2.43.0


From cbfaeebf882083016cc323a530d27441a9e247fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 29/54] fix: combined triggers name exactly the times of their
 parts and never search without end

---
 asyncz/triggers/combination.py  | 96 +++++++++++++++++++++++++--------
 asyncz/triggers/cron/trigger.py |  5 ++
 asyncz/triggers/date.py         |  4 ++
 asyncz/triggers/interval.py     |  5 ++
 asyncz/triggers/types.py        |  7 +++
 5 files changed, 95 insertions(+), 22 deletions(-)

diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 7fa2244..8ace6a3 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -1,13 +1,28 @@
-from datetime import datetime, tzinfo
+import threading
+from datetime import datetime, timedelta, tzinfo
+from datetime import timezone as tz
 from typing import ClassVar, Optional, Union
 
 from asyncz.triggers.base import BaseCombinationTrigger
 
+MAX_SEARCH_STEPS = 10_000
+"""How many times the triggers are asked for a common time before they are considered disjoint."""
+
+_search = threading.local()
+"""The steps left, shared by nested triggers."""
+
+
+def _utc(value: datetime) -> datetime:
+    # aware datetimes of one zone are compared by their wall clock, which is ambiguous when clocks
+    # are set back
+    return value.astimezone(tz.utc)
+
 
 class AndTrigger(BaseCombinationTrigger):
     """
     Always returns the earliest next trigger time that all the passed triggers agree on.
-    The trigger is consideres to be finished when any of the given triggers finished its schedule.
+    The trigger is consideres to be finished when any of the given triggers finished its schedule
+    or no common time can be found.
 
     Args:
         triggers: List of triggers to combine.
@@ -21,19 +36,49 @@ class AndTrigger(BaseCombinationTrigger):
     ) -> Union[datetime, None]:
         if now is None:
             now = datetime.now(timezone)
-        while True:
-            trigger_times = []
-            for trigger in self.triggers:
-                next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
+        if previous_time is None:
+            trigger_times = [
+                trigger.get_next_trigger_time(timezone, None, now) for trigger in self.triggers
+            ]
+            next_trigger_time = self._common_time(timezone, trigger_times)
+        else:
+            next_trigger_time = self.get_next_time_after(timezone, previous_time)
+        return self.apply_jitter(next_trigger_time, self.jitter, now)
+
+    def get_next_time_after(self, timezone: tzinfo, moment: datetime) -> Union[datetime, None]:
+        return self._common_time(
+            timezone,
+            [trigger.get_next_time_after(timezone, moment) for trigger in self.triggers],
+        )
+
+    def _common_time(
+        self, timezone: tzinfo, trigger_times: list[Optional[datetime]]
+    ) -> Union[datetime, None]:
+        outermost = getattr(_search, "steps", None) is None
+        if outermost:
+            _search.steps = MAX_SEARCH_STEPS
+        try:
+            while _search.steps > 0:
+                _search.steps -= 1
+                times = [value for value in trigger_times if value is not None]
                 # bail out early
-                if next_trigger_time is None:
+                if not times or len(times) != len(trigger_times):
                     return None
-                trigger_times.append(next_trigger_time)
-            if min(trigger_times) == max(trigger_times):
-                return self.apply_jitter(trigger_times[0], self.jitter, now)
-            else:
-                # recheck
-                now = max(trigger_times)
+                latest = max(times, key=_utc)
+                if all(_utc(value) == _utc(latest) for value in times):
+                    return times[0]
+                # recheck those which are behind
+                before = _utc(latest) - timedelta(microseconds=1)
+                trigger_times = [
+                    value
+                    if _utc(value) == _utc(latest)
+                    else trigger.get_next_time_after(timezone, before)
+                    for trigger, value in zip(self.triggers, times, strict=True)
+                ]
+            return None
+        finally:
+            if outermost:
+                _search.steps = None
 
 
 class OrTrigger(BaseCombinationTrigger):
@@ -53,13 +98,20 @@ class OrTrigger(BaseCombinationTrigger):
     ) -> Union[datetime, None]:
         if now is None:
             now = datetime.now(timezone)
-        trigger_times = []
-        for trigger in self.triggers:
-            next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
-            if next_trigger_time is not None:
-                trigger_times.append(next_trigger_time)
-
-        if trigger_times:
-            return self.apply_jitter(min(trigger_times), self.jitter, now)
+        if previous_time is None:
+            trigger_times = [
+                trigger.get_next_trigger_time(timezone, None, now) for trigger in self.triggers
+            ]
+            next_trigger_time = self._earliest_time(trigger_times)
         else:
-            return None
+            next_trigger_time = self.get_next_time_after(timezone, previous_time)
+        return self.apply_jitter(next_trigger_time, self.jitter, now)
+
+    def get_next_time_after(self, timezone: tzinfo, moment: datetime) -> Union[datetime, None]:
+        return self._earliest_time(
+            [trigger.get_next_time_after(timezone, moment) for trigger in self.triggers]
+        )
+
+    def _earliest_time(self, trigger_times: list[Optional[datetime]]) -> Union[datetime, None]:
+        times = [value for value in trigger_times if value is not None]
+        return min(times, key=_utc) if times else None
diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index b828db1..55557a9 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -1,4 +1,5 @@
 from datetime import datetime, timedelta, tzinfo
+from datetime import timezone as tz
 from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import CronState
@@ -272,6 +273,10 @@ class CronTrigger(BaseTrigger):
             return min(next_date, end_at_field) if end_at_field else next_date
         return None
 
+    def get_next_time_after(self, timezone: tzinfo, moment: datetime) -> Union[datetime, None]:
+        now = moment.astimezone(tz.utc) + timedelta(microseconds=1)
+        return self.get_next_trigger_time(timezone, None, now)
+
     def __getstate__(self) -> Any:
         state = CronState(
             timezone=self.timezone,
diff --git a/asyncz/triggers/date.py b/asyncz/triggers/date.py
index faf599d..03e5883 100644
--- a/asyncz/triggers/date.py
+++ b/asyncz/triggers/date.py
@@ -39,6 +39,10 @@ class DateTrigger(BaseTrigger):
             return self.run_at.astimezone(timezone)
         return None
 
+    def get_next_time_after(self, timezone: tzinfo, moment: datetime) -> Union[datetime, None]:
+        run_at = self.run_at.astimezone(timezone)
+        return run_at if run_at.timestamp() > moment.timestamp() else None
+
     def __getstate__(self) -> Any:
         """
         Handles the conversion to a dict to be able to pickle.
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index bf4a177..605df91 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -1,4 +1,5 @@
 from datetime import datetime, timedelta, tzinfo
+from datetime import timezone as tz
 from math import ceil
 from typing import Any, ClassVar, Optional, Union
 
@@ -102,6 +103,10 @@ class IntervalTrigger(BaseTrigger):
             return normalize(value=next_trigger_time)
         return None
 
+    def get_next_time_after(self, timezone: tzinfo, moment: datetime) -> Union[datetime, None]:
+        now = moment.astimezone(tz.utc) + timedelta(microseconds=1)
+        return self.get_next_trigger_time(timezone, None, now)
+
     def __getstate__(self) -> IntervalState:  # type: ignore
         state = IntervalState(
             timezone=self.timezone,
diff --git a/asyncz/triggers/types.py b/asyncz/triggers/types.py
index 470da94..86ee2d2 100644
--- a/asyncz/triggers/types.py
+++ b/asyncz/triggers/types.py
@@ -21,6 +21,13 @@ class TriggerType(ABC):
         """
         ...
 
+    def get_next_time_after(self, timezone: tzinfo, moment: datetime) -> Union[datetime, None]:
+        """
+        Returns the earliest datetime this trigger names that is later than the given moment,
+        which is not necessarily one at which it fired. Used for combining triggers.
+        """
+        return self.get_next_trigger_time(timezone, moment, moment)
+
     @overload
     def apply_jitter(
         self, next_trigger_time: datetime, jitter: Optional[int], now: datetime
-- 
2.43.0


From c7aa723e5d8f948f3cf0e5da7dce3a1c8d9ea2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 30/54] fix: interval triggers and jitter keep the elapsed time
 across clock changes of the time zone

---
 asyncz/triggers/base.py        |  4 ++--
 asyncz/triggers/combination.py | 18 ++++++------------
 asyncz/triggers/interval.py    | 30 ++++++++++++++++++------------
 asyncz/utils.py                | 19 +++++++++++++++++++
 4 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/asyncz/triggers/base.py b/asyncz/triggers/base.py
index 278db54..d74725f 100644
--- a/asyncz/triggers/base.py
+++ b/asyncz/triggers/base.py
@@ -5,7 +5,7 @@ from typing import Any, Optional, Union, overload
 from asyncz.datastructures import CombinationState
 from asyncz.state import BaseStateExtra
 from asyncz.triggers.types import TriggerType
-from asyncz.utils import obj_to_ref, ref_to_obj
+from asyncz.utils import add_elapsed, obj_to_ref, ref_to_obj
 
 
 class BaseTrigger(BaseStateExtra, TriggerType):
@@ -36,7 +36,7 @@ class BaseTrigger(BaseStateExtra, TriggerType):
         """
         if next_trigger_time is None or not jitter:
             return next_trigger_time
-        return next_trigger_time + timedelta(seconds=random.uniform(0, jitter))
+        return add_elapsed(next_trigger_time, timedelta(seconds=random.uniform(0, jitter)))
 
 
 class BaseCombinationTrigger(BaseTrigger):
diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 8ace6a3..2a30c83 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -1,9 +1,9 @@
 import threading
 from datetime import datetime, timedelta, tzinfo
-from datetime import timezone as tz
 from typing import ClassVar, Optional, Union
 
 from asyncz.triggers.base import BaseCombinationTrigger
+from asyncz.utils import as_utc
 
 MAX_SEARCH_STEPS = 10_000
 """How many times the triggers are asked for a common time before they are considered disjoint."""
@@ -12,12 +12,6 @@ _search = threading.local()
 """The steps left, shared by nested triggers."""
 
 
-def _utc(value: datetime) -> datetime:
-    # aware datetimes of one zone are compared by their wall clock, which is ambiguous when clocks
-    # are set back
-    return value.astimezone(tz.utc)
-
-
 class AndTrigger(BaseCombinationTrigger):
     """
     Always returns the earliest next trigger time that all the passed triggers agree on.
@@ -64,14 +58,14 @@ class AndTrigger(BaseCombinationTrigger):
                 # bail out early
                 if not times or len(times) != len(trigger_times):
                     return None
-                latest = max(times, key=_utc)
-                if all(_utc(value) == _utc(latest) for value in times):
+                latest = max(times, key=as_utc)
+                if all(as_utc(value) == as_utc(latest) for value in times):
                     return times[0]
                 # recheck those which are behind
-                before = _utc(latest) - timedelta(microseconds=1)
+                before = as_utc(latest) - timedelta(microseconds=1)
                 trigger_times = [
                     value
-                    if _utc(value) == _utc(latest)
+                    if as_utc(value) == as_utc(latest)
                     else trigger.get_next_time_after(timezone, before)
                     for trigger, value in zip(self.triggers, times, strict=True)
                 ]
@@ -114,4 +108,4 @@ class OrTrigger(BaseCombinationTrigger):
 
     def _earliest_time(self, trigger_times: list[Optional[datetime]]) -> Union[datetime, None]:
         times = [value for value in trigger_times if value is not None]
-        return min(times, key=_utc) if times else None
+        return min(times, key=as_utc) if times else None
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 605df91..e031745 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -1,11 +1,19 @@
 from datetime import datetime, timedelta, tzinfo
 from datetime import timezone as tz
-from math import ceil
 from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import IntervalState
 from asyncz.triggers.base import BaseTrigger
-from asyncz.utils import datetime_repr, normalize, timedelta_seconds, to_datetime, to_timezone
+from asyncz.utils import (
+    add_elapsed,
+    as_utc,
+    datetime_repr,
+    localize,
+    normalize,
+    timedelta_seconds,
+    to_datetime,
+    to_timezone,
+)
 
 
 class IntervalTrigger(BaseTrigger):
@@ -74,32 +82,30 @@ class IntervalTrigger(BaseTrigger):
             now = datetime.now(timezone)
         next_trigger_time: Optional[datetime]
         start_at = (
-            self.start_at.replace(tzinfo=timezone)
+            localize(self.start_at, timezone)
             if self.start_at and self.start_at.tzinfo is None
             else self.start_at
         )
         if previous_time:
-            next_trigger_time = previous_time + self.interval
-        elif start_at > now:
+            next_trigger_time = add_elapsed(previous_time, self.interval)
+        elif as_utc(start_at) > as_utc(now):
             next_trigger_time = start_at
         else:
-            time_difference_seconds = timedelta_seconds(now - start_at)
-            next_interval_number = int(
-                ceil(time_difference_seconds / timedelta_seconds(self.interval))
-            )
-            next_trigger_time = start_at + self.interval * next_interval_number
+            # rounded up
+            next_interval_number = -((as_utc(start_at) - as_utc(now)) // self.interval)
+            next_trigger_time = add_elapsed(start_at, self.interval * next_interval_number)
 
         if self.jitter is not None:
             next_trigger_time = self.apply_jitter(
                 next_trigger_time=next_trigger_time, jitter=self.jitter, now=now
             )
         end_at = (
-            self.end_at.replace(tzinfo=timezone)
+            localize(self.end_at, timezone)
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
 
-        if not end_at or next_trigger_time <= end_at:
+        if not end_at or as_utc(next_trigger_time) <= as_utc(end_at):
             return normalize(value=next_trigger_time)
         return None
 
diff --git a/asyncz/utils.py b/asyncz/utils.py
index 6401b6a..032c721 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -212,6 +212,25 @@ def timedelta_seconds(delta: timedelta) -> float:
     return delta.days * 24 * 60 * 60 + delta.seconds + delta.microseconds / 1000000.0
 
 
+def as_utc(value: datetime) -> datetime:
+    """
+    Converts to UTC.
+
+    Aware datetimes of the same zone are compared and subtracted by their wall clock, which
+    is not the time that passes when clocks are set forward or back in between.
+    """
+    return value.astimezone(dttz.utc)
+
+
+def add_elapsed(value: datetime, delta: timedelta) -> datetime:
+    """
+    Adds time that really passes, in contrast to wall clock arithmetic.
+    """
+    if value.tzinfo is None:
+        return value + delta
+    return (as_utc(value) + delta).astimezone(value.tzinfo)
+
+
 def datetime_ceil(dateval: datetime) -> datetime:
     """
     Rounds the given datetime object upwards.
-- 
2.43.0


From 085ecb9582c97064577456aa2dc9faf7c0080029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 31/54] fix: cron triggers neither repeat nor skip times when
 clocks are set back

---
 asyncz/triggers/cron/trigger.py | 71 ++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 18 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index 55557a9..79dce7d 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -13,10 +13,11 @@ from asyncz.triggers.cron.fields import (
     WeekField,
 )
 from asyncz.utils import (
+    add_elapsed,
+    as_utc,
     datetime_ceil,
     datetime_repr,
     localize,
-    normalize,
     to_datetime,
     to_timezone,
 )
@@ -169,6 +170,35 @@ class CronTrigger(BaseTrigger):
             timezone=timezone,
         )
 
+    def move_to_wall_time(self, dateval: datetime, wall_time: datetime) -> tuple[datetime, bool]:
+        """
+        Returns the first time after dateval at which the wall clock shows wall_time (or, when it is
+        skipped, the time it would have been without setting the clocks forward).
+
+        When the clocks are set back in between and repeat times after dateval, the start of the
+        repetition is returned, together with False.
+        """
+        next_date = add_elapsed(dateval, wall_time - dateval.replace(tzinfo=None))
+        missing = wall_time - next_date.replace(tzinfo=None)
+        if not missing:
+            return next_date, True
+        if missing > timedelta(0):
+            repeated = add_elapsed(dateval, missing)
+            if repeated.replace(tzinfo=None) == dateval.replace(tzinfo=None, fold=0):
+                offset = dateval.utcoffset()
+                seconds_before, seconds = 0, int(missing.total_seconds())
+                while seconds - seconds_before > 1:
+                    middle = (seconds_before + seconds) // 2
+                    if add_elapsed(dateval, timedelta(seconds=middle)).utcoffset() == offset:
+                        seconds_before = middle
+                    else:
+                        seconds = middle
+                return add_elapsed(dateval, timedelta(seconds=seconds)), False
+        shifted = add_elapsed(next_date, missing)
+        if shifted.replace(tzinfo=None) == wall_time:
+            next_date = shifted
+        return next_date, True
+
     def increment_field_value(self, dateval: datetime, field_number: int) -> tuple[datetime, int]:
         """
         Increments the designated field and resets all significant fields to their minimum values
@@ -203,12 +233,15 @@ class CronTrigger(BaseTrigger):
                     values[field.name] = value + 1
                     count += 1
 
-        difference = datetime(**values) - dateval.replace(tzinfo=None)
-        return normalize(dateval + difference), field_number
+        dateval, reached = self.move_to_wall_time(dateval, datetime(**values))
+        return dateval, field_number if reached else 0
 
     def set_field_value(
-        self, dateval: datetime, field_number: int, new_value: Any, timezone: tzinfo
-    ) -> datetime:
+        self, dateval: datetime, field_number: int, new_value: Any
+    ) -> tuple[datetime, int]:
+        """
+        Sets the designated field and resets all significant fields to their minimum values
+        """
         values = {}
         for i, field in enumerate(self.fields):
             if field.real:
@@ -219,7 +252,8 @@ class CronTrigger(BaseTrigger):
                 else:
                     values[field.name] = new_value
 
-        return localize(datetime(**values), timezone)
+        dateval, reached = self.move_to_wall_time(dateval, datetime(**values))
+        return dateval, field_number + 1 if reached else 0
 
     def get_next_trigger_time(
         self, timezone: tzinfo, previous_time: Optional[datetime], now: Optional[datetime] = None
@@ -228,26 +262,26 @@ class CronTrigger(BaseTrigger):
         if now is None:
             now = datetime.now(timezone)
         start_at_field = (
-            self.start_at.replace(tzinfo=timezone)
+            localize(self.start_at, timezone)
             if self.start_at and self.start_at.tzinfo is None
             else self.start_at
         )
         end_at_field = (
-            self.end_at.replace(tzinfo=timezone)
+            localize(self.end_at, timezone)
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
         if previous_time:
-            start_at = min(now, previous_time + timedelta(microseconds=1))
-            if start_at == previous_time:
+            start_at = min(as_utc(now), as_utc(previous_time) + timedelta(microseconds=1))
+            if start_at == as_utc(previous_time):
                 start_at += timedelta(microseconds=1)
         else:
-            start_at = max(now, start_at_field) if start_at_field else now
-        if start_at.tzinfo != timezone:
-            start_at = start_at.astimezone(timezone)
+            start_at = as_utc(now)
+            if start_at_field:
+                start_at = max(start_at, as_utc(start_at_field))
 
         fieldnum = 0
-        next_date = datetime_ceil(start_at)
+        next_date = datetime_ceil(start_at).astimezone(timezone)
 
         while 0 <= fieldnum < len(self.fields):
             field = self.fields[fieldnum]
@@ -258,19 +292,20 @@ class CronTrigger(BaseTrigger):
                 next_date, fieldnum = self.increment_field_value(next_date, fieldnum - 1)
             elif next_value > curr_value:
                 if field.real:
-                    next_date = self.set_field_value(next_date, fieldnum, next_value, timezone)
-                    fieldnum += 1
+                    next_date, fieldnum = self.set_field_value(next_date, fieldnum, next_value)
                 else:
                     next_date, fieldnum = self.increment_field_value(next_date, fieldnum)
             else:
                 fieldnum += 1
 
-            if end_at_field and next_date > end_at_field:
+            if end_at_field and as_utc(next_date) > as_utc(end_at_field):
                 return None
 
         if fieldnum >= 0:
             next_date = self.apply_jitter(next_date, self.jitter, now)
-            return min(next_date, end_at_field) if end_at_field else next_date
+            if end_at_field and as_utc(next_date) > as_utc(end_at_field):
+                next_date = end_at_field
+            return next_date
         return None
 
     def get_next_time_after(self, timezone: tzinfo, moment: datetime) -> Union[datetime, None]:
-- 
2.43.0


From d1325b257d6346fd966f407c41c0825317c3766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 32/54] fix: interval triggers without timezone start one
 interval after their creation in every time zone

---
 asyncz/triggers/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index e031745..e26856e 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -67,7 +67,7 @@ class IntervalTrigger(BaseTrigger):
         else:
             self.timezone = None
 
-        start_at = start_at or (datetime.now(self.timezone) + self.interval)
+        start_at = start_at or add_elapsed(datetime.now(self.timezone or tz.utc), self.interval)
         self.start_at = to_datetime(start_at, self.timezone, "start_at", require_tz=False)
         self.end_at = to_datetime(end_at, self.timezone, "end_at", require_tz=False)
 
-- 
2.43.0


From 2a27e088c917cea69ceac555fe586de72c347092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 33/54] fix: the scheduler waits for and compares the time that
 passes, not the wall clock of its time zone

---
 asyncz/schedulers/base.py | 58 ++++++++++++++++++++++++++-------------
 asyncz/stores/file.py     |  7 +++--
 asyncz/stores/redis.py    |  8 ++++--
 asyncz/tasks/base.py      |  3 +-
 4 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index f070fea..84d7f69 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -58,7 +58,14 @@ from asyncz.tasks.inspection import TaskInfo, TaskRunPreview
 from asyncz.tasks.types import TaskType
 from asyncz.triggers.types import TriggerType
 from asyncz.typing import Undefined, undefined
-from asyncz.utils import maybe_ref, timedelta_seconds, to_datetime, to_timezone_with_fallback
+from asyncz.utils import (
+    add_elapsed,
+    as_utc,
+    maybe_ref,
+    timedelta_seconds,
+    to_datetime,
+    to_timezone_with_fallback,
+)
 
 if TYPE_CHECKING:
     from asyncz.protocols import LockProtectedProtocol
@@ -72,6 +79,12 @@ class ClassicLogging(LoggersType):
 default_loggers_class: type[LoggersType] = ClassicLogging
 
 
+def _same_time(first: Optional[datetime], second: Optional[datetime]) -> bool:
+    if first is None or second is None:
+        return first is second
+    return as_utc(first) == as_utc(second)
+
+
 class BaseScheduler(SchedulerType):
     """
     Abstract base class for all schedulers. Implement the base logic.
@@ -238,7 +251,9 @@ class BaseScheduler(SchedulerType):
             #
             min_dtime = None
             if self.lock_path:
-                min_dtime = datetime.now(self.timezone) + timedelta(seconds=self.startup_delay)
+                min_dtime = add_elapsed(
+                    datetime.now(self.timezone), timedelta(seconds=self.startup_delay)
+                )
 
             if "default" not in self.stores:
                 self.add_store(self.create_default_store(), "default")
@@ -920,7 +935,7 @@ class BaseScheduler(SchedulerType):
                 current_task, _ = self.lookup_task(task_id, store_alias)
             except TaskLookupError:
                 return None
-            if current_task.next_run_time != scheduled_for:
+            if not _same_time(current_task.next_run_time, scheduled_for):
                 return current_task
             task = current_task
 
@@ -930,10 +945,10 @@ class BaseScheduler(SchedulerType):
             now,
         )
 
-        if next_run_time is not None and next_run_time <= now:
+        if next_run_time is not None and as_utc(next_run_time) <= as_utc(now):
             # Manual runs must always advance strictly forward so admin actions do
             # not create zero-delay feedback loops in tests or dashboards.
-            next_run_time = now + timedelta(milliseconds=1)
+            next_run_time = add_elapsed(now, timedelta(milliseconds=1))
 
         self.store_changes += 1
         if next_run_time is None and remove_finished:
@@ -1087,14 +1102,14 @@ class BaseScheduler(SchedulerType):
             "name": lambda info: ((info.name or "").lower(), (info.id or "").lower()),
             "next_run_time": lambda info: (
                 info.next_run_time is None,
-                info.next_run_time or datetime.max.replace(tzinfo=self.timezone),
+                info.next_run_time.timestamp() if info.next_run_time else 0,
                 (info.name or "").lower(),
                 (info.id or "").lower(),
             ),
             "schedule_state": lambda info: (
                 info.schedule_state.value,
                 info.next_run_time is None,
-                info.next_run_time or datetime.max.replace(tzinfo=self.timezone),
+                info.next_run_time.timestamp() if info.next_run_time else 0,
                 (info.id or "").lower(),
             ),
             "executor": lambda info: ((info.executor or "").lower(), (info.id or "").lower()),
@@ -1190,7 +1205,7 @@ class BaseScheduler(SchedulerType):
         task_infos = self.get_task_infos()
         started_at = self.started_at if state != SchedulerState.STATE_STOPPED else None
         uptime_seconds = (
-            max(0.0, (datetime.now(self.timezone) - started_at).total_seconds())
+            max(0.0, (as_utc(datetime.now(self.timezone)) - as_utc(started_at)).total_seconds())
             if started_at is not None
             else None
         )
@@ -1546,9 +1561,11 @@ class BaseScheduler(SchedulerType):
                 self.timezone, None, now
             )
             if min_dtime is not None and isinstance(replacements["next_run_time"], datetime):
-                replacements["next_run_time"] = max(min_dtime, replacements["next_run_time"])
+                replacements["next_run_time"] = max(
+                    min_dtime, replacements["next_run_time"], key=as_utc
+                )
         elif isinstance(task.next_run_time, datetime) and min_dtime is not None:
-            replacements["next_run_time"] = max(min_dtime, task.next_run_time)
+            replacements["next_run_time"] = max(min_dtime, task.next_run_time, key=as_utc)
 
         # Apply replacements
         task.update_task(**replacements)
@@ -1665,12 +1682,12 @@ class BaseScheduler(SchedulerType):
         # mt lock
         with store.lock.protected(blocking=False) as success_blocking:
             if not success_blocking:
-                retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+                retry_wakeup_time = as_utc(now) + timedelta(seconds=self.store_retry_interval)
                 if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
                     next_wakeup_time = retry_wakeup_time
                 return next_wakeup_time
 
-            retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+            retry_wakeup_time = as_utc(now) + timedelta(seconds=self.store_retry_interval)
             changes = self.store_changes
             try:
                 due_tasks: list[TaskType] = store.get_due_tasks(now)
@@ -1692,7 +1709,7 @@ class BaseScheduler(SchedulerType):
                         if (
                             due_task is None
                             or not due_task.next_run_time
-                            or due_task.next_run_time > now
+                            or as_utc(due_task.next_run_time) > as_utc(now)
                         ):
                             continue
                     self._process_due_task(now, store_alias, store, due_task, events)
@@ -1711,12 +1728,14 @@ class BaseScheduler(SchedulerType):
                 self.loggers[self.logger_name].warning(
                     f'Error getting the next run time from the store "{store_alias}": {e}.'
                 )
-            if failed and (store_next_run_time is None or store_next_run_time <= now):
+            if store_next_run_time is not None:
+                store_next_run_time = as_utc(store_next_run_time)
+            if failed and (store_next_run_time is None or store_next_run_time <= as_utc(now)):
                 store_next_run_time = retry_wakeup_time
             if store_next_run_time and (
                 next_wakeup_time is None or store_next_run_time < next_wakeup_time
             ):
-                next_wakeup_time = store_next_run_time.astimezone(self.timezone)
+                next_wakeup_time = store_next_run_time
             return next_wakeup_time
 
     def _process_due_task(
@@ -1777,7 +1796,7 @@ class BaseScheduler(SchedulerType):
         if self.store_changes != changes:
             # the task was executed inline and changed tasks, its changes must survive
             current_task = store.lookup_task(cast(str, task.id))
-            if current_task is None or current_task.next_run_time != scheduled_for:
+            if current_task is None or not _same_time(current_task.next_run_time, scheduled_for):
                 return
             task = current_task
 
@@ -1817,7 +1836,7 @@ class BaseScheduler(SchedulerType):
         events: list[SchedulerEvent] = []
 
         # check for other processing thread
-        retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+        retry_wakeup_time = as_utc(now) + timedelta(seconds=self.store_retry_interval)
         try:
             with self.store_processing_lock.protected(blocking=False) as blocking_success:
                 if blocking_success:
@@ -1861,9 +1880,10 @@ class BaseScheduler(SchedulerType):
 
         else:
             # the pass itself took time, so measure from the current time
-            now = datetime.now(self.timezone)
+            now = as_utc(datetime.now(self.timezone))
             wait_seconds = min(max(timedelta_seconds(next_wakeup_time - now), 0), TIMEOUT_MAX)
             self.loggers[self.logger_name].debug(
-                f"Next wakeup is due at {next_wakeup_time} (in {wait_seconds} seconds)."
+                f"Next wakeup is due at {next_wakeup_time.astimezone(self.timezone)} "
+                f"(in {wait_seconds} seconds)."
             )
         return wait_seconds
diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index b57c6a4..92408e5 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -15,6 +15,7 @@ from asyncz.file_locking import LOCK_EX, LOCK_SH, with_lock
 from asyncz.stores.base import BaseStore
 from asyncz.tasks import Task
 from asyncz.tasks.types import TaskType
+from asyncz.utils import as_utc, datetime_to_utc_timestamp
 
 if TYPE_CHECKING:
     from asyncz.schedulers.types import SchedulerType
@@ -134,7 +135,7 @@ class FileStore(BaseStore):
         return [
             task
             for task in self.get_all_tasks()
-            if task.next_run_time is not None and task.next_run_time <= now
+            if task.next_run_time is not None and as_utc(task.next_run_time) <= as_utc(now)
         ]
 
     def get_tasks(self) -> list[TaskType]:
@@ -161,7 +162,7 @@ class FileStore(BaseStore):
                 tasks,
                 key=lambda task_stat: (
                     int(task_stat[0].next_run_time is None),
-                    task_stat[0].next_run_time,
+                    datetime_to_utc_timestamp(task_stat[0].next_run_time),
                     # sort for task creation not update
                     task_stat[1].st_ctime,
                 ),
@@ -173,7 +174,7 @@ class FileStore(BaseStore):
         for task in self.get_all_tasks():
             if task.next_run_time is None:
                 break
-            if next_run_time is None or next_run_time >= task.next_run_time:
+            if next_run_time is None or as_utc(next_run_time) >= as_utc(task.next_run_time):
                 next_run_time = task.next_run_time
         return next_run_time
 
diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index a30e22d..7f2ef2a 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -8,7 +8,7 @@ from asyncz.exceptions import AsynczException, ConflictIdError, TaskLookupError
 from asyncz.stores.base import BaseStore
 from asyncz.tasks import Task
 from asyncz.tasks.types import TaskType
-from asyncz.utils import datetime_to_utc_timestamp, utc_timestamp_to_datetime
+from asyncz.utils import as_utc, datetime_to_utc_timestamp, utc_timestamp_to_datetime
 
 try:
     from redis import Redis, WatchError
@@ -75,7 +75,11 @@ class RedisStore(BaseStore):
         states: list[Any] = self.redis.hmget(self.tasks_key, ids)  # type: ignore
         tasks = self.rebuild_tasks(zip(ids, states, strict=False))
         # the tasks can be changed between the two requests
-        return [task for task in tasks if task.next_run_time and task.next_run_time <= now]
+        return [
+            task
+            for task in tasks
+            if task.next_run_time and as_utc(task.next_run_time) <= as_utc(now)
+        ]
 
     def rebuild_tasks(self, states: Iterable[tuple[str, Any]]) -> list["TaskType"]:
         tasks = []
diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 20ffc8f..c5ab890 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -12,6 +12,7 @@ from asyncz.state import BaseState
 from asyncz.tasks.types import DecoratedFn, TaskType
 from asyncz.triggers.types import TriggerType
 from asyncz.utils import (
+    as_utc,
     check_callable_args,
     datetime_repr,
     get_callable_name,
@@ -68,7 +69,7 @@ class Task(BaseState, TaskType):  # type: ignore
         run_times = []
         next_run_time = self.next_run_time
         assert self.trigger
-        while next_run_time and next_run_time <= now:
+        while next_run_time and as_utc(next_run_time) <= as_utc(now):
             run_times.append(next_run_time)
             next_run_time = self.trigger.get_next_trigger_time(timezone, next_run_time, now)
         return run_times
-- 
2.43.0


From fea0c4d06693a71b7a8a7a062114fc008bca232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:49 +0000
Subject: [PATCH 34/54] fix: a task object whose submission is refused is
 unchanged and can be submitted again

---
 asyncz/schedulers/base.py | 99 +++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 45 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 84d7f69..5b3a686 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -617,53 +617,62 @@ class BaseScheduler(SchedulerType):
             fn_or_task = fn
         if isinstance(fn_or_task, TaskType):
             assert fn_or_task.submitted is False, "Can submit tasks only once"
+            previous_state = dict(fn_or_task.__dict__)
             fn_or_task.submitted = True
-            # tweak task before submitting
-            # WARNING: in contrast to the decorator mode this really updates the task
-            # by providing an id (e.g. autogenerated) you can make a real task from decorator type task while submitting
-            task_update_kwargs: dict[str, Any] = {
-                "scheduler": self,
-                "args": tuple(args) if args is not None else undefined,
-                "kwargs": dict(kwargs) if kwargs is not None else undefined,
-                "id": id or undefined,
-                "name": name or undefined,
-                "mistrigger_grace_time": mistrigger_grace_time,
-                "coalesce": coalesce,
-                "max_instances": max_instances,
-                "next_run_time": next_run_time,
-                "executor": executor if executor is not None else undefined,
-                "store_alias": store if store is not None else undefined,
-            }
-            if trigger:
-                task_update_kwargs["trigger"] = self.create_trigger(trigger, trigger_args)
-                # WARNING: when submitting a task object allow_mistrigger_by_default has no effect
-            task_update_kwargs = {
-                key: value for key, value in task_update_kwargs.items() if value is not undefined
-            }
-            fn_or_task.update_task(**task_update_kwargs)
-            # fallback if still not set. Set manually executor and store_alias to default.
-            if fn_or_task.executor is None:
-                fn_or_task.executor = "default"
-            if fn_or_task.store_alias is None:
-                fn_or_task.store_alias = "default"
-            assert fn_or_task.trigger is not None, "Cannot submit a task without a trigger."
-            assert fn_or_task.id is not None, "Cannot submit a decorator type task."
-            with self.store_lock:
-                if self.state == SchedulerState.STATE_STOPPED:
-                    self.pending_tasks.append(
-                        (
-                            fn_or_task,
-                            replace_existing,
-                            next_run_time is not None,
+            try:
+                # tweak task before submitting
+                # WARNING: in contrast to the decorator mode this really updates the task
+                # by providing an id (e.g. autogenerated) you can make a real task from decorator type task while submitting
+                task_update_kwargs: dict[str, Any] = {
+                    "scheduler": self,
+                    "args": tuple(args) if args is not None else undefined,
+                    "kwargs": dict(kwargs) if kwargs is not None else undefined,
+                    "id": id or undefined,
+                    "name": name or undefined,
+                    "mistrigger_grace_time": mistrigger_grace_time,
+                    "coalesce": coalesce,
+                    "max_instances": max_instances,
+                    "next_run_time": next_run_time,
+                    "executor": executor if executor is not None else undefined,
+                    "store_alias": store if store is not None else undefined,
+                }
+                if trigger:
+                    task_update_kwargs["trigger"] = self.create_trigger(trigger, trigger_args)
+                    # WARNING: when submitting a task object allow_mistrigger_by_default has no effect
+                task_update_kwargs = {
+                    key: value
+                    for key, value in task_update_kwargs.items()
+                    if value is not undefined
+                }
+                fn_or_task.update_task(**task_update_kwargs)
+                # fallback if still not set. Set manually executor and store_alias to default.
+                if fn_or_task.executor is None:
+                    fn_or_task.executor = "default"
+                if fn_or_task.store_alias is None:
+                    fn_or_task.store_alias = "default"
+                assert fn_or_task.trigger is not None, "Cannot submit a task without a trigger."
+                assert fn_or_task.id is not None, "Cannot submit a decorator type task."
+                with self.store_lock:
+                    if self.state == SchedulerState.STATE_STOPPED:
+                        self.pending_tasks.append(
+                            (
+                                fn_or_task,
+                                replace_existing,
+                                next_run_time is not None,
+                            )
                         )
-                    )
-                    self.loggers[self.logger_name].info(
-                        "Adding task tentatively. It will be properly scheduled when the scheduler starts."
-                    )
-                else:
-                    self.real_add_task(
-                        fn_or_task, replace_existing, next_run_time is not None, None
-                    )
+                        self.loggers[self.logger_name].info(
+                            "Adding task tentatively. It will be properly scheduled when the scheduler starts."
+                        )
+                    else:
+                        self.real_add_task(
+                            fn_or_task, replace_existing, next_run_time is not None, None
+                        )
+            except BaseException:
+                # a refused task is unchanged and can be submitted again
+                fn_or_task.__dict__.clear()
+                fn_or_task.__dict__.update(previous_state)
+                raise
             return fn_or_task
         task_kwargs: dict[str, Any] = {
             "scheduler": self,
-- 
2.43.0


From f6dbbf1bac06540c9f49191fea244e23560b0816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:49 +0000
Subject: [PATCH 35/54] fix: refuse next run times which have no representation
 in UTC before changing the task

---
 asyncz/tasks/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index c5ab890..e2b6845 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -185,9 +185,11 @@ class Task(BaseState, TaskType):  # type: ignore
                 raise TypeError("Cannot set next_run_time without scheduler.")
 
             next_run_time = updates.pop("next_run_time")
-            approved["next_run_time"] = to_datetime(
-                next_run_time, scheduler.timezone, "next_run_time"
-            )
+            next_run_time = to_datetime(next_run_time, scheduler.timezone, "next_run_time")
+            if next_run_time is not None:
+                # the stores need it in UTC, which has a limited range
+                as_utc(next_run_time)
+            approved["next_run_time"] = next_run_time
 
         if updates:
             raise AttributeError(
-- 
2.43.0


From 772eceb7cf07e95229b4db4238b72983cd9d67a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:05 +0000
Subject: [PATCH 36/54] fix: scheduler information is taken from one moment

---
 asyncz/schedulers/base.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 5b3a686..fcaf374 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -226,8 +226,6 @@ class BaseScheduler(SchedulerType):
                 self.decr_refcount()
                 raise
 
-            self.started_at = datetime.now(self.timezone)
-            self.last_seen_at = self.started_at
             self.loggers[self.logger_name].info("Scheduler started.")
             self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
 
@@ -266,6 +264,8 @@ class BaseScheduler(SchedulerType):
                     self.real_add_task(task, replace_existing, start_task, min_dtime)
             del self.pending_tasks[:]
 
+            self.started_at = datetime.now(self.timezone)
+            self.last_seen_at = self.started_at
             self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
 
     def _shutdown_fn_helper(self, task: TaskType) -> None:
@@ -316,8 +316,8 @@ class BaseScheduler(SchedulerType):
         # a processing pass or manual run of another thread has to be finished first
         with self.store_lock:
             self.state = SchedulerState.STATE_STOPPED
-        self.last_seen_at = datetime.now(self.timezone)
-        self.started_at = None
+            self.last_seen_at = datetime.now(self.timezone)
+            self.started_at = None
 
         with self.executor_lock:
             executors = tuple(self.executors.values())
@@ -1210,9 +1210,12 @@ class BaseScheduler(SchedulerType):
         directly.
         """
 
-        state = SchedulerState(self.state)
-        task_infos = self.get_task_infos()
-        started_at = self.started_at if state != SchedulerState.STATE_STOPPED else None
+        # all from the same moment
+        with self.store_lock:
+            state = SchedulerState(self.state)
+            task_infos = self.get_task_infos()
+            started_at = self.started_at
+            store_aliases = tuple(sorted(self.stores))
         uptime_seconds = (
             max(0.0, (as_utc(datetime.now(self.timezone)) - as_utc(started_at)).total_seconds())
             if started_at is not None
@@ -1221,14 +1224,12 @@ class BaseScheduler(SchedulerType):
 
         with self.executor_lock:
             executor_aliases = tuple(sorted(self.executors))
-        with self.store_lock:
-            store_aliases = tuple(sorted(self.stores))
 
         return SchedulerInfo(
             identity=self.identity,
             state=state,
             state_label=state.name.removeprefix("STATE_").lower(),
-            running=self.running,
+            running=state != SchedulerState.STATE_STOPPED,
             started_at=started_at,
             uptime_seconds=uptime_seconds,
             timezone=str(self.timezone),
-- 
2.43.0


From 5b1f54f8401a47d32c3ccfe15a86c0edbfcd13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:28 +0000
Subject: [PATCH 37/54] fix: a refused dashboard action is recorded as failed
 and does not break the page or stop the others

---
 asyncz/contrib/dashboard/controllers/tasks.py | 80 +++++++++++++++----
 1 file changed, 65 insertions(+), 15 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index ba805fa..e957a70 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -216,6 +216,13 @@ def _audit_task_action(
     )
 
 
+def _record_task_failure(request: Request, action: str, task_id: str, exc: Exception) -> None:
+    """Report an action the scheduler refused, e.g. because of a failing store or executor."""
+    message = str(exc) or exc.__class__.__name__
+    add_message(request, "error", message)
+    _audit_task_action(action, task_id, status="failed", message=message)
+
+
 class TasklistController(DashboardMixin, TemplateController):
     """
     Renders the main task management dashboard page, displaying a list of all scheduled tasks.
@@ -270,6 +277,8 @@ class TaskRunController(_BaseTaskAction):
             _audit_task_action("run", task_id, status="warning", message=str(exc))
         except TaskLookupError:
             _audit_task_action("run", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _record_task_failure(request, "run", task_id, exc)
         return await self._redirect()
 
 
@@ -284,6 +293,8 @@ class TaskPauseController(_BaseTaskAction):
             _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
         except TaskLookupError:
             _audit_task_action("pause", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _record_task_failure(request, "pause", task_id, exc)
         return await self._redirect()
 
 
@@ -298,6 +309,8 @@ class TaskResumeController(_BaseTaskAction):
             _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("resume", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _record_task_failure(request, "resume", task_id, exc)
         return await self._redirect()
 
 
@@ -312,6 +325,8 @@ class TaskRemoveController(_BaseTaskAction):
             _audit_task_action("remove", task_id, message=f"Removed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("remove", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _record_task_failure(request, "remove", task_id, exc)
         return await self._redirect()
 
 
@@ -412,19 +427,28 @@ class TaskCreateController(DashboardMixin, Controller):
         # Parse args/kwargs JSON
         raw_args: str = (form.get("args") or "").strip()
         raw_kwargs: str = (form.get("kwargs") or "").strip()
-        args: list[Any] = json.loads(raw_args) if raw_args else []
-        kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
 
-        # Import callable and parse trigger
+        # Import callable, parse trigger and add the task to the scheduler
         try:
+            args: list[Any] = json.loads(raw_args) if raw_args else []
+            kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
             func: Callable[..., Any] | str
             if getattr(self.scheduler, "is_remote", False):
                 func = callable_path
             else:
                 func = import_callable(callable_path)
             trigger_alias, trigger_args = parse_trigger_config(trigger_type, trigger_value)
+            task = self.scheduler.add_task(
+                func,
+                trigger=trigger_alias,
+                args=args,
+                kwargs=kwargs,
+                name=name,
+                store=store_alias,
+                **trigger_args,
+            )
         except Exception as e:
-            message = str(e)
+            message = str(e) or e.__class__.__name__
             add_message(request, "error", f"{message}")
             _audit_task_action(
                 "create",
@@ -436,16 +460,6 @@ class TaskCreateController(DashboardMixin, Controller):
             context = await self.get_context_data(request)
             return await render_table(self.scheduler, request, context)
 
-        # Add task to the scheduler
-        task = self.scheduler.add_task(
-            func,
-            trigger=trigger_alias,
-            args=args,
-            kwargs=kwargs,
-            name=name,
-            store=store_alias,
-            **trigger_args,
-        )
         _audit_task_action(
             "create",
             task.id,
@@ -527,6 +541,9 @@ class TaskEditController(DashboardMixin, Controller):
         except TaskLookupError:
             _audit_task_action("update", task_id, status="failed", message="Task was not found.")
             return await self._render(request, task=None, status_code=404)
+        except Exception as exc:
+            _record_task_failure(request, "update", task_id, exc)
+            return await self._render(request, task=None, status_code=503)
 
         form_data: Any = await request.form()
         intent = _string_form_value(form_data, "intent", "preview").strip().lower()
@@ -571,7 +588,24 @@ class TaskEditController(DashboardMixin, Controller):
                 diff=diff,
             )
 
-        updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        try:
+            updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        except TaskLookupError:
+            # removed in the meantime
+            _audit_task_action("update", task_id, status="failed", message="Task was not found.")
+            return await self._render(request, task=None, status_code=404)
+        except Exception as exc:
+            message = str(exc) or exc.__class__.__name__
+            _audit_task_action("update", task_id, status="failed", message=message)
+            return await self._render(
+                request,
+                task=task,
+                store_alias=store_alias,
+                form=form,
+                diff=diff,
+                errors=[message],
+                status_code=400,
+            )
         _audit_task_action(
             "update",
             task_id,
@@ -608,6 +642,8 @@ class TaskBulkPauseController(DashboardMixin, Controller):
                     "pause", task_id, status="failed", message="Task was not found."
                 )
                 continue
+            except Exception as exc:
+                _record_task_failure(request, "pause", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -635,6 +671,8 @@ class TaskBulkRunController(DashboardMixin, Controller):
             except TaskLookupError:
                 _audit_task_action("run", task_id, status="failed", message="Task was not found.")
                 continue
+            except Exception as exc:
+                _record_task_failure(request, "run", task_id, exc)
 
         # Return refreshed table fragment for HTMX swap
         context = await self.get_context_data(request)
@@ -664,6 +702,8 @@ class TaskBulkResumeController(DashboardMixin, Controller):
                     "resume", task_id, status="failed", message="Task was not found."
                 )
                 continue
+            except Exception as exc:
+                _record_task_failure(request, "resume", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -690,6 +730,8 @@ class TaskBulkRemoveController(DashboardMixin, Controller):
                     "remove", task_id, status="failed", message="Task was not found."
                 )
                 continue
+            except Exception as exc:
+                _record_task_failure(request, "remove", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -712,6 +754,8 @@ class TaskHXRunController(DashboardMixin, Controller):
             _audit_task_action("run", task_id, status="warning", message=str(exc))
         except TaskLookupError:
             _audit_task_action("run", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _record_task_failure(request, "run", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -731,6 +775,8 @@ class TaskHXPauseController(DashboardMixin, Controller):
             _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
         except TaskLookupError:
             _audit_task_action("pause", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _record_task_failure(request, "pause", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -750,6 +796,8 @@ class TaskHXResumeController(DashboardMixin, Controller):
             _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("resume", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _record_task_failure(request, "resume", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -770,6 +818,8 @@ class TaskHXRemoveController(DashboardMixin, Controller):
             _audit_task_action("remove", task_id, message=f"Removed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("remove", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _record_task_failure(request, "remove", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
-- 
2.43.0


From abe1e8f357d1f376afbab190eff0f3d009997fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:47 +0000
Subject: [PATCH 38/54] fix: every failed or unintelligible answer of a remote
 scheduler is a RemoteSchedulerError

---
 asyncz/contrib/dashboard/remote.py | 95 ++++++++++++++++++++----------
 1 file changed, 64 insertions(+), 31 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index ec53e29..010a40f 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -9,6 +9,7 @@ so dashboard reads and task actions travel over HTTP to the worker.
 from __future__ import annotations
 
 import base64
+import http.client
 import json
 import pickle
 import urllib.error
@@ -17,11 +18,12 @@ import urllib.request
 from collections.abc import Callable, Mapping
 from datetime import datetime
 from enum import Enum
-from typing import Any
+from typing import Any, TypeVar
 
 from lilya.requests import Request
 from lilya.responses import JSONResponse
 from lilya.routing import RoutePath, Router
+from pydantic import BaseModel
 
 from asyncz.exceptions import (
     AsynczException,
@@ -36,6 +38,8 @@ from asyncz.triggers.types import TriggerType
 from asyncz.typing import Undefined, undefined
 from asyncz.utils import obj_to_ref
 
+M = TypeVar("M", bound=BaseModel)
+
 Transport = Callable[
     [str, str, dict[str, Any] | None, dict[str, str], dict[str, Any] | None],
     tuple[int, dict[str, Any]],
@@ -613,16 +617,21 @@ class RemoteSchedulerClient:
         url = f"{self.base_url}{path}"
         if query:
             url = f"{url}?{urllib.parse.urlencode(query)}"
-        data = None if payload is None else json.dumps(_dump_json(payload)).encode()
+        try:
+            data = None if payload is None else json.dumps(_dump_json(payload)).encode()
+        except (TypeError, ValueError) as exc:
+            raise RemoteSchedulerError(f"Remote scheduler payload is not JSON: {exc}") from exc
         request = urllib.request.Request(url, data=data, method=method, headers=headers)
         try:
-            with urllib.request.urlopen(request, timeout=10) as response:
-                body = response.read().decode() or "{}"
-                return response.status, json.loads(body)
-        except urllib.error.HTTPError as exc:
-            body = exc.read().decode() or "{}"
-            return exc.code, json.loads(body)
-        except urllib.error.URLError as exc:
+            try:
+                with urllib.request.urlopen(request, timeout=10) as response:
+                    return response.status, json.loads(response.read().decode() or "{}")
+            except urllib.error.HTTPError as exc:
+                with exc:
+                    return exc.code, json.loads(exc.read().decode() or "{}")
+        except (OSError, http.client.HTTPException, ValueError) as exc:
+            # timeouts and connections breaking while the answer is read are not URLErrors,
+            # something between client and worker can answer with anything
             raise RemoteSchedulerError(f"Remote scheduler request failed: {exc}") from exc
 
     def _request(
@@ -645,10 +654,36 @@ class RemoteSchedulerClient:
             status_code, response = self.transport(method, path, payload, headers, query)
         else:
             status_code, response = self._urllib_request(method, path, payload, headers, query)
+        if not isinstance(response, dict):
+            raise RemoteSchedulerError(f"Unexpected remote scheduler response: {response!r}")
         if status_code < 400:
-            return response.get("data")
+            if "data" not in response:
+                raise RemoteSchedulerError(f"Unexpected remote scheduler response: {response!r}")
+            return response["data"]
         self._raise_remote_error(response)
 
+    def _parse(self, model: type[M], data: Any) -> M:
+        """
+        Build a snapshot model from response data.
+
+        Data which is no snapshot of this kind did not come from a worker, so it is
+        reported like any other failed request.
+        """
+
+        try:
+            return model.model_validate(data)
+        except ValueError as exc:
+            raise RemoteSchedulerError(f"Unexpected remote scheduler response: {exc}") from exc
+
+    def _parse_list(self, model: type[M], data: Any) -> list[M]:
+        """
+        Build a list of snapshot models from response data.
+        """
+
+        if not isinstance(data, list):
+            raise RemoteSchedulerError(f"Unexpected remote scheduler response: {data!r}")
+        return [self._parse(model, item) for item in data]
+
     def _raise_remote_error(self, response: dict[str, Any]) -> None:
         """
         Translate a worker error payload into a local exception.
@@ -673,17 +708,22 @@ class RemoteSchedulerClient:
             raise ValueError(message)
         raise RemoteSchedulerError(message)
 
-    def _task_from_data(self, data: dict[str, Any] | None) -> RemoteTask | None:
+    def _task_from_data(self, data: Any) -> RemoteTask:
         """
         Convert remote task snapshot data into a task proxy.
+        """
+
+        return RemoteTask(self._parse(TaskInfo, data))
+
+    def _optional_task_from_data(self, data: Any) -> RemoteTask | None:
+        """
+        Convert remote task snapshot data into a task proxy if there is any.
 
         `None` is preserved for operations such as run or resume that can remove
         a finished task.
         """
 
-        if data is None:
-            return None
-        return RemoteTask(TaskInfo.model_validate(data))
+        return None if data is None else self._task_from_data(data)
 
     def get_scheduler_info(self) -> SchedulerInfo:
         """
@@ -693,7 +733,7 @@ class RemoteSchedulerClient:
         local scheduler path.
         """
 
-        return SchedulerInfo.model_validate(self._request("GET", "/info"))
+        return self._parse(SchedulerInfo, self._request("GET", "/info"))
 
     def get_scheduler_instance_infos(self) -> tuple[SchedulerInstanceInfo, ...]:
         """
@@ -703,8 +743,7 @@ class RemoteSchedulerClient:
         local scheduler identity.
         """
 
-        data = self._request("GET", "/instances")
-        return tuple(SchedulerInstanceInfo.model_validate(item) for item in data)
+        return tuple(self._parse_list(SchedulerInstanceInfo, self._request("GET", "/instances")))
 
     def get_task_infos(
         self,
@@ -738,7 +777,7 @@ class RemoteSchedulerClient:
             "/tasks",
             query={key: value for key, value in query.items() if value not in (None, "")},
         )
-        return [TaskInfo.model_validate(item) for item in data]
+        return self._parse_list(TaskInfo, data)
 
     def get_task_info(self, task_id: str, store: str | None = None) -> TaskInfo | None:
         """
@@ -755,7 +794,7 @@ class RemoteSchedulerClient:
             )
         except TaskLookupError:
             return None
-        return TaskInfo.model_validate(data)
+        return self._parse(TaskInfo, data)
 
     def get_task(self, task_id: str, store: str | None = None) -> RemoteTask | None:
         """
@@ -809,7 +848,7 @@ class RemoteSchedulerClient:
             )
         except TaskLookupError:
             return None
-        return TaskRunPreview.model_validate(data)
+        return self._parse(TaskRunPreview, data)
 
     def add_task(
         self,
@@ -865,9 +904,7 @@ class RemoteSchedulerClient:
             if value is not undefined and value is not None:
                 payload[key] = value
         data = self._request("POST", "/tasks", payload)
-        task = self._task_from_data(data)
-        assert task is not None
-        return task
+        return self._task_from_data(data)
 
     def update_task(self, task_id: Any, store: str | None = None, **updates: Any) -> RemoteTask:
         """
@@ -884,9 +921,7 @@ class RemoteSchedulerClient:
             f"/tasks/{urllib.parse.quote(str(task_id), safe='')}",
             {"store": store, "updates": updates},
         )
-        task = self._task_from_data(data)
-        assert task is not None
-        return task
+        return self._task_from_data(data)
 
     def run_task(
         self,
@@ -910,7 +945,7 @@ class RemoteSchedulerClient:
             f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/run",
             {"store": store, "force": force, "remove_finished": remove_finished},
         )
-        return self._task_from_data(data)
+        return self._optional_task_from_data(data)
 
     def pause_task(self, task_id: Any, store: str | None = None) -> RemoteTask:
         """
@@ -926,9 +961,7 @@ class RemoteSchedulerClient:
             f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/pause",
             {"store": store},
         )
-        task = self._task_from_data(data)
-        assert task is not None
-        return task
+        return self._task_from_data(data)
 
     def resume_task(self, task_id: Any, store: str | None = None) -> RemoteTask | None:
         """
@@ -945,7 +978,7 @@ class RemoteSchedulerClient:
             f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/resume",
             {"store": store},
         )
-        return self._task_from_data(data)
+        return self._optional_task_from_data(data)
 
     def delete_task(self, task_id: Any, store: str | None = None) -> None:
         """
-- 
2.43.0


From 8a277850e97e69855b851bcffe466437cbec9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:10 +0000
Subject: [PATCH 39/54] fix: a remote control request which is not intelligible
 is refused, with a structured answer

---
 asyncz/contrib/dashboard/remote.py | 103 ++++++++++++++++-------------
 1 file changed, 57 insertions(+), 46 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 010a40f..79eb928 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -287,13 +287,13 @@ async def _json_body(request: Request) -> dict[str, Any]:
     Read a JSON request body into a dictionary.
 
     Empty bodies are accepted for POST-style action endpoints that only need path
-    parameters.
+    parameters. A body which is no JSON, for example because it arrived only in
+    part, does not say what to do, so the request must not be carried out.
     """
 
-    try:
-        body = await request.json()
-    except json.JSONDecodeError:
+    if not await request.body():
         return {}
+    body = await request.json()
     if body is None:
         return {}
     if not isinstance(body, dict):
@@ -338,7 +338,10 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        return _success(scheduler.get_scheduler_info())
+        try:
+            return _success(scheduler.get_scheduler_info())
+        except Exception as exc:
+            return _error(exc)
 
     async def instances(request: Request) -> JSONResponse:
         """
@@ -350,7 +353,10 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        return _success(list(scheduler.get_scheduler_instance_infos()))
+        try:
+            return _success(list(scheduler.get_scheduler_instance_infos()))
+        except Exception as exc:
+            return _error(exc)
 
     async def tasks(request: Request) -> JSONResponse:
         """
@@ -390,10 +396,13 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        task = scheduler.get_task_info(task_id, request.query_params.get("store") or None)
-        if task is None:
-            return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
-        return _success(task)
+        try:
+            task = scheduler.get_task_info(task_id, request.query_params.get("store") or None)
+            if task is None:
+                return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
+            return _success(task)
+        except Exception as exc:
+            return _error(exc, task_id=task_id)
 
     async def preview(request: Request) -> JSONResponse:
         """
@@ -406,15 +415,19 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        count = int(request.query_params.get("count") or 5)
-        result = scheduler.preview_task_runs(
-            task_id,
-            request.query_params.get("store") or None,
-            count=count,
-        )
-        if result is None:
-            return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
-        return _success(result)
+        try:
+            now = request.query_params.get("now")
+            result = scheduler.preview_task_runs(
+                task_id,
+                request.query_params.get("store") or None,
+                count=int(request.query_params.get("count") or 5),
+                now=datetime.fromisoformat(now) if now else None,
+            )
+            if result is None:
+                return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
+            return _success(result)
+        except Exception as exc:
+            return _error(exc, status_code=400, task_id=task_id)
 
     async def add_task(request: Request) -> JSONResponse:
         """
@@ -426,31 +439,29 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        body = await _json_body(request)
-        trigger: Any
-        trigger_args = dict(body.get("trigger_args") or {})
-        if body.get("trigger_pickle"):
-            trigger = _decode_trigger(str(body["trigger_pickle"]))
-        else:
-            trigger = body.get("trigger")
-        kwargs = {
-            key: body[key]
-            for key in (
-                "id",
-                "name",
-                "args",
-                "kwargs",
-                "mistrigger_grace_time",
-                "coalesce",
-                "max_instances",
-                "next_run_time",
-                "store",
-                "executor",
-                "replace_existing",
-            )
-            if key in body
-        }
         try:
+            body = await _json_body(request)
+            trigger_args = dict(body.get("trigger_args") or {})
+            trigger: Any = body.get("trigger")
+            if body.get("trigger_pickle"):
+                trigger = _decode_trigger(str(body["trigger_pickle"]))
+            kwargs = {
+                key: body[key]
+                for key in (
+                    "id",
+                    "name",
+                    "args",
+                    "kwargs",
+                    "mistrigger_grace_time",
+                    "coalesce",
+                    "max_instances",
+                    "next_run_time",
+                    "store",
+                    "executor",
+                    "replace_existing",
+                )
+                if key in body
+            }
             task = scheduler.add_task(body.get("fn"), trigger=trigger, **kwargs, **trigger_args)
         except Exception as exc:
             return _error(exc, status_code=400)
@@ -467,8 +478,8 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        body = await _json_body(request)
         try:
+            body = await _json_body(request)
             task = scheduler.update_task(
                 task_id, body.get("store"), **dict(body.get("updates") or {})
             )
@@ -490,9 +501,9 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
             return response
         task_id = request.path_params["task_id"]
         action = request.path_params["action"]
-        body = await _json_body(request)
-        store = body.get("store")
         try:
+            body = await _json_body(request)
+            store = body.get("store")
             if action == "run":
                 task = scheduler.run_task(
                     task_id,
-- 
2.43.0


From a6324aa9979daf310f3063040b34d0264fcd4356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:27 +0000
Subject: [PATCH 40/54] fix: the remote client does not replace an explicit
 None by the default

---
 asyncz/contrib/dashboard/remote.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 79eb928..442349f 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -912,7 +912,10 @@ class RemoteSchedulerClient:
             "store": store,
             "executor": executor,
         }.items():
-            if value is not undefined and value is not None:
+            # None selects the default of these, for all others it is a value of its own
+            if value is not undefined and (
+                value is not None or key not in {"id", "name", "store", "executor"}
+            ):
                 payload[key] = value
         data = self._request("POST", "/tasks", payload)
         return self._task_from_data(data)
-- 
2.43.0


From 74467fbc2c73bb18b3b74584b781f7bd97b8cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:27 +0000
Subject: [PATCH 41/54] fix: the remote client reports a conflicting task id as
 the scheduler does

---
 asyncz/contrib/dashboard/remote.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 442349f..fabc0e3 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -27,6 +27,7 @@ from pydantic import BaseModel
 
 from asyncz.exceptions import (
     AsynczException,
+    ConflictIdError,
     MaximumInstancesError,
     SchedulerNotRunningError,
     TaskLookupError,
@@ -463,6 +464,8 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
                 if key in body
             }
             task = scheduler.add_task(body.get("fn"), trigger=trigger, **kwargs, **trigger_args)
+        except ConflictIdError as exc:
+            return _error(exc, status_code=409, task_id=body.get("id"))
         except Exception as exc:
             return _error(exc, status_code=400)
         return _success(task.snapshot())
@@ -708,6 +711,8 @@ class RemoteSchedulerClient:
         task_id = response.get("task_id")
         if error == "TaskLookupError":
             raise TaskLookupError(task_id)
+        if error == "ConflictIdError":
+            raise ConflictIdError(task_id)
         if error == "SchedulerNotRunningError":
             raise SchedulerNotRunningError()
         if error == "MaximumInstancesError":
-- 
2.43.0


From 06ad00645229326cce95737b7fdfef9681a1494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:36 +0000
Subject: [PATCH 42/54] fix: a task argument without a JSON representation does
 not hide all tasks from remote control

---
 asyncz/contrib/dashboard/remote.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index fabc0e3..ff4e151 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -24,6 +24,7 @@ from lilya.requests import Request
 from lilya.responses import JSONResponse
 from lilya.routing import RoutePath, Router
 from pydantic import BaseModel
+from pydantic_core import to_jsonable_python
 
 from asyncz.exceptions import (
     AsynczException,
@@ -229,6 +230,28 @@ def _dump_json(value: Any) -> Any:
     return value
 
 
+def _inspectable(value: Any) -> Any:
+    """
+    Convert a snapshot into JSON-compatible data for inspection.
+
+    Tasks can have any arguments. Those which have no JSON representation are shown
+    by their `repr`, so that one of them does not hide all tasks from the dashboard.
+    """
+
+    if isinstance(value, BaseModel):
+        value = value.model_dump()
+    if isinstance(value, Mapping):
+        return {str(key): _inspectable(item) for key, item in value.items()}
+    if isinstance(value, tuple | list | set | frozenset):
+        return [_inspectable(item) for item in value]
+    try:
+        value = to_jsonable_python(value)
+        json.dumps(value, allow_nan=False, ensure_ascii=False).encode()
+        return value
+    except ValueError:
+        return repr(value)
+
+
 def _encode_trigger(trigger: TriggerType) -> str:
     """
     Serialize a trigger object for a trusted remote control request.
@@ -260,7 +283,7 @@ def _success(data: Any = None) -> JSONResponse:
     successful `None` results from error payloads.
     """
 
-    return JSONResponse({"data": _dump_json(data)})
+    return JSONResponse({"data": _inspectable(data)})
 
 
 def _error(exc: Exception, *, status_code: int = 500, task_id: str | None = None) -> JSONResponse:
-- 
2.43.0


From 59ff106689c876bc6d6a7a64bf9dc8f0bd99f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:41 +0000
Subject: [PATCH 43/54] fix: tasks whose id contains a slash can be controlled
 remotely

---
 asyncz/contrib/dashboard/remote.py | 41 ++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index ff4e151..01438b1 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -275,6 +275,25 @@ def _decode_trigger(value: str) -> TriggerType:
     return pickle.loads(base64.b64decode(value.encode("ascii")))
 
 
+def _quote_task_id(task_id: Any) -> str:
+    """
+    Write a task id as one segment of a request path.
+
+    Servers decode the path before they split it, so `/` is escaped a second time.
+    """
+
+    escaped = str(task_id).replace("%", "%25").replace("/", "%2F")
+    return urllib.parse.quote(escaped, safe="")
+
+
+def _unquote_task_id(segment: str) -> str:
+    """
+    Restore a task id from a decoded segment of a request path.
+    """
+
+    return segment.replace("%2F", "/").replace("%25", "%")
+
+
 def _success(data: Any = None) -> JSONResponse:
     """
     Build a successful remote control JSON response.
@@ -419,7 +438,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _unquote_task_id(request.path_params["task_id"])
         try:
             task = scheduler.get_task_info(task_id, request.query_params.get("store") or None)
             if task is None:
@@ -438,7 +457,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _unquote_task_id(request.path_params["task_id"])
         try:
             now = request.query_params.get("now")
             result = scheduler.preview_task_runs(
@@ -503,7 +522,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _unquote_task_id(request.path_params["task_id"])
         try:
             body = await _json_body(request)
             task = scheduler.update_task(
@@ -525,7 +544,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _unquote_task_id(request.path_params["task_id"])
         action = request.path_params["action"]
         try:
             body = await _json_body(request)
@@ -828,7 +847,7 @@ class RemoteSchedulerClient:
         try:
             data = self._request(
                 "GET",
-                f"/tasks/{urllib.parse.quote(task_id, safe='')}",
+                f"/tasks/{_quote_task_id(task_id)}",
                 query={"store": store} if store else None,
             )
         except TaskLookupError:
@@ -882,7 +901,7 @@ class RemoteSchedulerClient:
         try:
             data = self._request(
                 "GET",
-                f"/tasks/{urllib.parse.quote(task_id, safe='')}/preview",
+                f"/tasks/{_quote_task_id(task_id)}/preview",
                 query=query,
             )
         except TaskLookupError:
@@ -960,7 +979,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "PATCH",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}",
+            f"/tasks/{_quote_task_id(task_id)}",
             {"store": store, "updates": updates},
         )
         return self._task_from_data(data)
@@ -984,7 +1003,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/run",
+            f"/tasks/{_quote_task_id(task_id)}/run",
             {"store": store, "force": force, "remove_finished": remove_finished},
         )
         return self._optional_task_from_data(data)
@@ -1000,7 +1019,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/pause",
+            f"/tasks/{_quote_task_id(task_id)}/pause",
             {"store": store},
         )
         return self._task_from_data(data)
@@ -1017,7 +1036,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/resume",
+            f"/tasks/{_quote_task_id(task_id)}/resume",
             {"store": store},
         )
         return self._optional_task_from_data(data)
@@ -1034,6 +1053,6 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/remove",
+            f"/tasks/{_quote_task_id(task_id)}/remove",
             {"store": store},
         )
-- 
2.43.0


From 6ac7601ca26cc4ba9a348d3fad0e84183f8554bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:27 +0000
Subject: [PATCH 44/54] fix: the redirect to the login keeps the address asked
 for and can not be used to add headers

---
 asyncz/contrib/dashboard/admin/middleware/auth_gate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 61303bd..51d4c58 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Awaitable, Callable, Iterable
 from typing import Any
+from urllib.parse import quote
 
 from lilya.requests import Request
 from lilya.responses import PlainText, RedirectResponse, Response
@@ -90,7 +91,11 @@ class AuthGateMiddleware:
         login_url: str = f"{mount_prefix}{self.login_path}"
 
         # Determine the target URL after login
-        next_q: str = f"?next={path}"
+        # The path is decoded and headers must not contain arbitrary characters.
+        target: str = quote(path)
+        if query := scope.get("query_string"):
+            target = f"{target}?{query.decode('latin-1')}"
+        next_q: str = f"?next={quote(target, safe='/')}"
 
         response: Response
         if request.headers.get("hx-request") == "true":
-- 
2.43.0


From eacf9923ec89423351111f0e33d29b5f14515a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:27 +0000
Subject: [PATCH 45/54] fix: the login pages are reachable when the dashboard
 is served without a prefix

---
 asyncz/contrib/dashboard/admin/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/core.py b/asyncz/contrib/dashboard/admin/core.py
index 3fc2e63..609ba65 100644
--- a/asyncz/contrib/dashboard/admin/core.py
+++ b/asyncz/contrib/dashboard/admin/core.py
@@ -262,12 +262,12 @@ class AsynczAdmin:
         ]
 
         # 2. Build Top-Level Routes (Mounting everything under the final prefix)
-        routes: list[Path | Include] = [
-            Include(path=base_norm, routes=inner_routes, name="dashboard")
-        ]
+        routes: list[Path | Include] = []
         if self.enable_login:
-            # Add /login and /logout handlers if authentication is enabled at root level
+            # Add /login and /logout handlers if authentication is enabled at root level,
+            # before the dashboard, which takes every path when it is mounted at the root
             routes.extend(self.add_sign_in_pages())
+        routes.append(Include(path=base_norm, routes=inner_routes, name="dashboard"))
 
         # 3. Build Middleware Stack (Order is critical)
         middlewares: list[DefineMiddleware] = []
-- 
2.43.0


From 2a36851e632dac0bf2113acf5caf7428640d8929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:27 +0000
Subject: [PATCH 46/54] fix: the login does not redirect to other sites and
 keeps the address asked for after a failure

---
 asyncz/contrib/dashboard/admin/backends.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/backends.py b/asyncz/contrib/dashboard/admin/backends.py
index 00616d0..3ec0d9d 100644
--- a/asyncz/contrib/dashboard/admin/backends.py
+++ b/asyncz/contrib/dashboard/admin/backends.py
@@ -15,6 +15,21 @@ from asyncz.contrib.dashboard.mixins import default_context
 VerifyCallable = Callable[[str, str], User | None]
 
 
+def _is_local_path(target: str) -> bool:
+    """
+    Check that a redirect target stays on this site.
+
+    Browsers read `//host`, and with backslashes or control characters in between,
+    as another site.
+    """
+
+    return (
+        target.startswith("/")
+        and not target.startswith(("//", "/\\"))
+        and all(char >= " " for char in target)
+    )
+
+
 class SimpleUsernamePasswordBackend(AuthBackend):
     """
     A basic authentication backend that verifies credentials using a synchronous
@@ -92,7 +107,7 @@ class SimpleUsernamePasswordBackend(AuthBackend):
 
         if not user:
             # Login failed: re-render form with error message
-            context.update({"error": "Invalid credentials"})
+            context.update({"error": "Invalid credentials", "next": form.get("next")})
             return templates.get_template_response(request, self.login_template, context)
 
         # Login successful: store user data in session
@@ -104,7 +119,9 @@ class SimpleUsernamePasswordBackend(AuthBackend):
         }
 
         # Redirect to the requested 'next' URL or default to root
-        next: str = form.get("next") or reverse("dashboard:index")
+        next: str = form.get("next") or ""
+        if not _is_local_path(next):
+            next = reverse("dashboard:index")
         return RedirectResponse(next, status_code=303)
 
     async def logout(self, request: Request) -> Response:
-- 
2.43.0


From dd8eef46342ed56fb3944212192367044bfac199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:18 +0000
Subject: [PATCH 47/54] fix: no task is submitted once pause() has returned

---
 asyncz/schedulers/base.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index fcaf374..caf2cfa 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -367,10 +367,14 @@ class BaseScheduler(SchedulerType):
         This will prevent the scheduler from waking up to do task processing until resume
         is called. It will not however stop any already running task processing.
         """
-        if self.state == SchedulerState.STATE_STOPPED:
-            raise SchedulerNotRunningError()
-        elif self.state == SchedulerState.STATE_RUNNING:
-            self.state = SchedulerState.STATE_PAUSED
+        # a processing pass of another thread has to be finished first
+        with self.store_lock:
+            if self.state == SchedulerState.STATE_STOPPED:
+                raise SchedulerNotRunningError()
+            changed = self.state == SchedulerState.STATE_RUNNING
+            if changed:
+                self.state = SchedulerState.STATE_PAUSED
+        if changed:
             self.loggers[self.logger_name].info("Paused scheduler task processing.")
             self.dispatch_event(SchedulerEvent(code=SCHEDULER_PAUSED))
 
@@ -378,10 +382,13 @@ class BaseScheduler(SchedulerType):
         """
         Resume task processing in the scheduler.
         """
-        if self.state == SchedulerState.STATE_STOPPED:
-            raise SchedulerNotRunningError
-        elif self.state == SchedulerState.STATE_PAUSED:
-            self.state = SchedulerState.STATE_RUNNING
+        with self.store_lock:
+            if self.state == SchedulerState.STATE_STOPPED:
+                raise SchedulerNotRunningError
+            changed = self.state == SchedulerState.STATE_PAUSED
+            if changed:
+                self.state = SchedulerState.STATE_RUNNING
+        if changed:
             self.loggers[self.logger_name].info("Resumed scheduler task processing.")
             self.dispatch_event(SchedulerEvent(code=SCHEDULER_RESUMED))
             self.wakeup()
@@ -1711,6 +1718,9 @@ class BaseScheduler(SchedulerType):
 
             failed = False
             for task in due_tasks:
+                if self.state != SchedulerState.STATE_RUNNING:
+                    # a task which was executed inline paused the scheduler
+                    break
                 try:
                     due_task: Optional[TaskType] = task
                     if self.store_changes != changes:
@@ -1852,8 +1862,12 @@ class BaseScheduler(SchedulerType):
                 if blocking_success:
                     # threading lock
                     with self.store_lock:
-                        # can be shut down in the meantime
-                        stores = tuple(self.stores.items()) if self.running else ()
+                        # can be shut down or paused in the meantime
+                        stores = (
+                            tuple(self.stores.items())
+                            if self.state == SchedulerState.STATE_RUNNING
+                            else ()
+                        )
                         for store_alias, store in stores:
                             try:
                                 next_wakeup_time = self._process_tasks_of_store(
-- 
2.43.0


From c82a1d04ee44db2477dc34bf7b9ffc00c6849863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:43 +0000
Subject: [PATCH 48/54] fix: an asyncio executor can be removed before the
 scheduler is started

---
 asyncz/executors/asyncio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asyncz/executors/asyncio.py b/asyncz/executors/asyncio.py
index 1967e16..c029e09 100644
--- a/asyncz/executors/asyncio.py
+++ b/asyncz/executors/asyncio.py
@@ -21,10 +21,15 @@ class AsyncIOExecutor(BaseExecutor):
     executor which is usually a thread pool.
     """
 
+    def __init__(self, *args: Any, **kwargs: Any) -> None:
+        super().__init__(*args, **kwargs)
+        # the executor can be removed before the scheduler was started
+        self.pending_futures: set[Any] = set()
+
     def start(self, scheduler: Any, alias: str) -> None:
         super().start(scheduler, alias)
         self.event_loop = scheduler.event_loop
-        self.pending_futures: set[Any] = set()
+        self.pending_futures = set()
 
     def shutdown(self, wait: bool = True) -> None:
         for f in tuple(self.pending_futures):
-- 
2.43.0


From 3db4c672bc115fcdc736a16574efa68d076cf0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:05 +0000
Subject: [PATCH 49/54] fix: a task keeps its stored state when the store
 refuses an update

---
 asyncz/schedulers/base.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index caf2cfa..043af68 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -754,11 +754,18 @@ class BaseScheduler(SchedulerType):
 
         with self.store_lock:
             task, store = self.lookup_task(task_id, store)
+            previous_state = dict(task.__dict__)
             task.update_task(scheduler=self, **new_updates)
 
             if store:
                 self.store_changes += 1
-                self.lookup_store(store).update_task(task)
+                try:
+                    self.lookup_store(store).update_task(task)
+                except Exception:
+                    # the store may hold the same object, it must stay as it is stored
+                    task.__dict__.clear()
+                    task.__dict__.update(previous_state)
+                    raise
 
         self.dispatch_event(TaskEvent(code=TASK_MODIFIED, task_id=task_id, store=store))
 
@@ -973,9 +980,15 @@ class BaseScheduler(SchedulerType):
             self.loggers[self.logger_name].info(f"Removed task {task_id}.")
             return None
 
+        previous_run_time = task.next_run_time
         task.update_task(next_run_time=next_run_time)
         if store_alias is not None:
-            self.lookup_store(store_alias).update_task(task)
+            try:
+                self.lookup_store(store_alias).update_task(task)
+            except Exception:
+                # the store may hold the same object, it must stay as it is stored
+                task.next_run_time = previous_run_time
+                raise
 
         return task
 
-- 
2.43.0


From b4f76a4c4d1b9aa1f635dd7e309d9b7eed0517ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:07 +0000
Subject: [PATCH 50/54] fix: CLI commands leave due tasks and shutdown tasks
 alone

The temporary scheduler of every command (list, preview, pause, ...) ran a
processing pass of the stores before the process ended: due runs were executed
by a read-only command, and those of coroutines were lost. The shutdown tasks
in the stores were executed and removed when the command ended.
---
 asyncz/cli/commands/add.py       | 12 +++++++++---
 asyncz/cli/commands/doctor.py    |  4 ++--
 asyncz/cli/commands/inspect.py   |  6 +++---
 asyncz/cli/commands/instances.py |  4 ++--
 asyncz/cli/commands/list.py      |  6 +++---
 asyncz/cli/commands/pause.py     |  6 +++---
 asyncz/cli/commands/preview.py   |  6 +++---
 asyncz/cli/commands/remove.py    |  6 +++---
 asyncz/cli/commands/resume.py    |  6 +++---
 asyncz/cli/commands/run.py       |  6 +++---
 asyncz/cli/commands/status.py    |  4 ++--
 asyncz/cli/commands/timeline.py  |  6 +++---
 asyncz/cli/commands/update.py    |  6 +++---
 asyncz/cli/utils.py              | 20 ++++++++++++++++++++
 asyncz/schedulers/base.py        |  5 ++++-
 15 files changed, 66 insertions(+), 37 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 20fee74..925d7f4 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -10,7 +10,13 @@ from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.types import parse_trigger
-from asyncz.cli.utils import build_stores_map, ensure_loop, import_callable, maybe_await
+from asyncz.cli.utils import (
+    TemporaryScheduler,
+    build_stores_map,
+    ensure_loop,
+    import_callable,
+    maybe_await,
+)
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.triggers.base import BaseTrigger
 
@@ -66,7 +72,7 @@ def add(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
 
             # Determine a target store alias from the framework scheduler (best effort)
             target_store_alias: str | None = None
@@ -87,7 +93,7 @@ def add(
             )
             cfg: dict[str, Any] = {"stores": stores_cfg}
             target_store_alias = next(iter(stores_cfg.keys()))
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 4) Resolve callable and add task
diff --git a/asyncz/cli/commands/doctor.py b/asyncz/cli/commands/doctor.py
index ce5f0a3..85d9d58 100644
--- a/asyncz/cli/commands/doctor.py
+++ b/asyncz/cli/commands/doctor.py
@@ -8,7 +8,7 @@ from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.commands.status import _serialize_scheduler_info
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
 
@@ -134,7 +134,7 @@ def doctor(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index d9e4955..cf7ca1f 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -8,7 +8,7 @@ import click
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
 
@@ -64,12 +64,12 @@ def inspect_task(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/instances.py b/asyncz/cli/commands/instances.py
index 94b8906..1bee65f 100644
--- a/asyncz/cli/commands/instances.py
+++ b/asyncz/cli/commands/instances.py
@@ -6,7 +6,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInstanceInfo
 
@@ -66,7 +66,7 @@ def instances(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index 1a7cf38..3f4351b 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.enums import TaskScheduleState
 from asyncz.schedulers import AsyncIOScheduler
 
@@ -78,7 +78,7 @@ def list_jobs(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
 
         else:
             # Default to an in-memory store if none provided to make the command useful out of the box
@@ -86,7 +86,7 @@ def list_jobs(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             cfg: dict[str, dict[str, dict[str, Any]]] = {"stores": stores_cfg}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 59957b5..90635bf 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -44,14 +44,14 @@ def pause(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
 
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2) Delegate to the scheduler API.
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index c7336f1..6365e93 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -8,7 +8,7 @@ import click
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskRunPreview
 
@@ -65,12 +65,12 @@ def preview(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 699d965..37f13ce 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -47,10 +47,10 @@ def remove(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2) Determine the store alias that holds the job (so delete works across multi-store setups)
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 931fef0..81479d9 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -44,13 +44,13 @@ def resume(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2) Delegate to the scheduler API and mirror the resulting state in the message.
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 5b1a8f7..42dd6cb 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -46,11 +46,11 @@ def run(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             # Try starting the scheduler if not already running
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             # 1. Build configuration and initialize a temporary scheduler
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2. Delegate the "run now" flow to the scheduler itself.
diff --git a/asyncz/cli/commands/status.py b/asyncz/cli/commands/status.py
index 37a3ac2..25a458c 100644
--- a/asyncz/cli/commands/status.py
+++ b/asyncz/cli/commands/status.py
@@ -6,7 +6,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
 
@@ -65,7 +65,7 @@ def status(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 435d3cc..26ffcb0 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -8,7 +8,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
 
@@ -104,12 +104,12 @@ def timeline(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index e52c8ea..54cafc1 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -8,7 +8,7 @@ import click
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.types import TaskType
 
@@ -133,12 +133,12 @@ def update(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 28b821c..554c3d5 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -1,12 +1,32 @@
 import asyncio
 import importlib
 import inspect
+import uuid
 from collections.abc import Callable
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, cast
 
 from asyncz.cli._parsers import parse_store_option
+from asyncz.schedulers import AsyncIOScheduler
+
+
+class TemporaryScheduler(AsyncIOScheduler):
+    """
+    The scheduler of a single CLI command.
+
+    It gives access to the stores, but leaves their due tasks and shutdown tasks to the
+    scheduler which serves them.
+    """
+
+    runs_shutdown_tasks = False
+
+    def _setup(self, config: Any) -> None:
+        config.setdefault("identity", f"AsyncIOScheduler-{uuid.uuid4().hex[:12]}")
+        super()._setup(config)
+
+    def wakeup(self) -> None:
+        """Nothing is processed."""
 
 
 async def maybe_await(value: Any) -> Any:
diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 043af68..0a04902 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -104,6 +104,9 @@ class BaseScheduler(SchedulerType):
         state: current running state of the scheduler.
     """
 
+    # False when another scheduler serves the stores
+    runs_shutdown_tasks: bool = True
+
     def __init__(
         self,
         global_config: Optional[Any] = None,
@@ -335,7 +338,7 @@ class BaseScheduler(SchedulerType):
                 try:
                     for task in _store.get_all_tasks():
                         assert task.trigger is not None
-                        if task.trigger.alias == "shutdown":
+                        if task.trigger.alias == "shutdown" and self.runs_shutdown_tasks:
                             with contextlib.suppress(TaskLookupError):
                                 _store.delete_task(cast(str, task.id))
                                 shutdown_tasks.append(task)
-- 
2.43.0


From f050941960f73d7229a69a5a5089e99d984beda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:07 +0000
Subject: [PATCH 51/54] fix: asyncz run waits for the run it triggered

The temporary scheduler was shut down right after the submission, which cancels
the coroutine of the job: the run was recorded as triggered but never finished.
---
 asyncz/cli/commands/run.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 42dd6cb..26e1afe 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -45,18 +45,24 @@ def run(
 
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             # Try starting the scheduler if not already running
+            started = not scheduler.running
             with contextlib.suppress(Exception):
                 await maybe_await(scheduler.start(paused=True))
         else:
             # 1. Build configuration and initialize a temporary scheduler
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
             scheduler = TemporaryScheduler(**cfg)
+            started = True
             await maybe_await(scheduler.start())
 
         # 2. Delegate the "run now" flow to the scheduler itself.
         await maybe_await(scheduler.run_task(job_id))
         info(f"Triggered job {job_id}")
 
+        # The event loop of the command ends with it, so the run has to finish first.
+        while started and job_id in scheduler.instances:
+            await asyncio.sleep(0.05)
+
         # 3. Shutdown the temporary scheduler
         if not bootstrap_mode:
             await maybe_await(scheduler.shutdown())
-- 
2.43.0


From f994aa16b5e2d6d294818c0e0f08a2802778fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:25 +0000
Subject: [PATCH 52/54] fix: CLI commands report when the bootstrap scheduler
 can't be started

The failure was suppressed: add reported success although the task was only
kept in memory of the command, the others did not find any stored task.
---
 asyncz/cli/commands/add.py      | 3 ++-
 asyncz/cli/commands/inspect.py  | 3 ++-
 asyncz/cli/commands/list.py     | 3 ++-
 asyncz/cli/commands/pause.py    | 3 ++-
 asyncz/cli/commands/preview.py  | 3 ++-
 asyncz/cli/commands/remove.py   | 3 ++-
 asyncz/cli/commands/resume.py   | 3 ++-
 asyncz/cli/commands/run.py      | 3 ++-
 asyncz/cli/commands/timeline.py | 3 ++-
 asyncz/cli/commands/update.py   | 3 ++-
 10 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 925d7f4..44b9abd 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -17,6 +17,7 @@ from asyncz.cli.utils import (
     import_callable,
     maybe_await,
 )
+from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.triggers.base import BaseTrigger
 
@@ -71,7 +72,7 @@ def add(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
-            with contextlib.suppress(Exception):
+            with contextlib.suppress(SchedulerAlreadyRunningError):
                 await maybe_await(scheduler.start(paused=True))
 
             # Determine a target store alias from the framework scheduler (best effort)
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index cf7ca1f..4afcda2 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -9,6 +9,7 @@ from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
+from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
 
@@ -63,7 +64,7 @@ def inspect_task(
             if store:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
-            with contextlib.suppress(Exception):
+            with contextlib.suppress(SchedulerAlreadyRunningError):
                 await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index 3f4351b..7bd8afc 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -9,6 +9,7 @@ from sayer import Option, command, info
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.enums import TaskScheduleState
+from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -77,7 +78,7 @@ def list_jobs(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
-            with contextlib.suppress(Exception):
+            with contextlib.suppress(SchedulerAlreadyRunningError):
                 await maybe_await(scheduler.start(paused=True))
 
         else:
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 90635bf..5ae7c35 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -8,6 +8,7 @@ from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
+from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -43,7 +44,7 @@ def pause(
             if store:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
-            with contextlib.suppress(Exception):
+            with contextlib.suppress(SchedulerAlreadyRunningError):
                 await maybe_await(scheduler.start(paused=True))
 
         else:
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index 6365e93..14d9729 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -9,6 +9,7 @@ from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
+from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskRunPreview
 
@@ -64,7 +65,7 @@ def preview(
             if store:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
-            with contextlib.suppress(Exception):
+            with contextlib.suppress(SchedulerAlreadyRunningError):
                 await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 37f13ce..e6a9388 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -8,6 +8,7 @@ from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
+from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -46,7 +47,7 @@ def remove(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
-            with contextlib.suppress(Exception):
+            with contextlib.suppress(SchedulerAlreadyRunningError):
                 await maybe_await(scheduler.start(paused=True))
         else:
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 81479d9..a366fa8 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -8,6 +8,7 @@ from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
+from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -43,7 +44,7 @@ def resume(
             if store:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
-            with contextlib.suppress(Exception):
+            with contextlib.suppress(SchedulerAlreadyRunningError):
                 await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 26e1afe..c553f0b 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -8,6 +8,7 @@ from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
+from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -46,7 +47,7 @@ def run(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             # Try starting the scheduler if not already running
             started = not scheduler.running
-            with contextlib.suppress(Exception):
+            with contextlib.suppress(SchedulerAlreadyRunningError):
                 await maybe_await(scheduler.start(paused=True))
         else:
             # 1. Build configuration and initialize a temporary scheduler
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 26ffcb0..ab03a2c 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -9,6 +9,7 @@ from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
+from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
 
@@ -103,7 +104,7 @@ def timeline(
             if store:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
-            with contextlib.suppress(Exception):
+            with contextlib.suppress(SchedulerAlreadyRunningError):
                 await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index 54cafc1..418d60e 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -9,6 +9,7 @@ from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
+from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.types import TaskType
 
@@ -132,7 +133,7 @@ def update(
             if store:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
-            with contextlib.suppress(Exception):
+            with contextlib.suppress(SchedulerAlreadyRunningError):
                 await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
-- 
2.43.0


From b09af41088242a51ce3f1a190dbd5c8fef78bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:43 +0000
Subject: [PATCH 53/54] fix: asyncz start loads the jobs of a module or config
 file

Task has no argument func, so every start with jobs failed.
---
 asyncz/cli/loader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/asyncz/cli/loader.py b/asyncz/cli/loader.py
index e5f18fa..77d35fb 100644
--- a/asyncz/cli/loader.py
+++ b/asyncz/cli/loader.py
@@ -6,7 +6,6 @@ from pathlib import Path
 from typing import Any
 
 from asyncz.schedulers import AsyncIOScheduler
-from asyncz.tasks import Task
 
 
 async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -> int:
@@ -21,12 +20,12 @@ async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -
 
     added = 0
     for item in entries:  # type: ignore
-        task = Task(func=item["func"], name=item.get("name"))
         scheduler.add_task(
-            task,
+            item["func"],
             trigger=item["trigger"],
             args=item.get("args", []),
             kwargs=item.get("kwargs", {}),
+            name=item.get("name"),
         )
         added += 1
     return added
@@ -57,9 +56,12 @@ async def load_jobs_from_config(scheduler: AsyncIOScheduler, path: str) -> int:
     added = 0
     for job in data.get("jobs", []):
         trig = parse_trigger(cron=job.get("cron"), interval=job.get("interval"), at=job.get("at"))
-        task = Task(func=job["func"], name=job.get("name"))
         scheduler.add_task(
-            task, trigger=trig, args=job.get("args", []), kwargs=job.get("kwargs", {})
+            job["func"],
+            trigger=trig,
+            args=job.get("args", []),
+            kwargs=job.get("kwargs", {}),
+            name=job.get("name"),
         )
         added += 1
     return added
-- 
2.43.0


From 82bdf20d3611e7672627c009dbdaffbac7ad67cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:06 +0000
Subject: [PATCH 54/54] fix: asyncz start shuts down on Ctrl+C

KeyboardInterrupt is raised by the event loop, not in the coroutine: neither on_stop nor the
shutdown ran. Coroutine shutdown tasks were deleted but never ran, a failed hook skipped the
shutdown, a failed reload stopped twice, and a change of a watched file while it was loaded
was missed.
---
 asyncz/cli/commands/start.py | 51 ++++++++++++++++++++++++------------
 asyncz/cli/utils.py          | 16 +++++++++++
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/asyncz/cli/commands/start.py b/asyncz/cli/commands/start.py
index 492743f..c246d47 100644
--- a/asyncz/cli/commands/start.py
+++ b/asyncz/cli/commands/start.py
@@ -19,6 +19,7 @@ from asyncz.cli.utils import (
     collect_watch_targets,
     ensure_loop,
     maybe_await,
+    shutdown_scheduler,
 )
 from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
@@ -106,33 +107,43 @@ def start(
         with contextlib.suppress(SchedulerAlreadyRunningError):
             await maybe_await(scheduler.start())
 
-        await maybe_await(_call_hook(on_start))
+        try:
+            await maybe_await(_call_hook(on_start))
+        except BaseException:
+            await shutdown_scheduler(scheduler)
+            raise
         success("Scheduler started.")
         return scheduler
 
+    async def stop(scheduler: AsyncIOScheduler) -> None:
+        """
+        Runs the on_stop hook and shuts the scheduler down.
+        """
+        try:
+            await maybe_await(_call_hook(on_stop))
+        finally:
+            await shutdown_scheduler(scheduler)
+
     async def run_forever() -> None:
         """
         The main asynchronous loop that orchestrates scheduling, watching, and reloading.
         """
-        scheduler: AsyncIOScheduler = await boot_once()
-
-        # Determine watch targets if hot-reloading is enabled
+        # Determine watch targets if hot-reloading is enabled. A change while the jobs are loaded
+        # isn't lost this way.
         targets: list[WatchTarget] = collect_watch_targets(module, config) if watch else []
 
-        # Quick exit if not running in standalone/watch mode
-        if not watch and not standalone:
-            await maybe_await(_call_hook(on_stop))
-            await maybe_await(scheduler.shutdown(wait=True))
-            return
-
+        scheduler: AsyncIOScheduler | None = None
         try:
-            while True:
+            scheduler = await boot_once()
+
+            # Quick exit if not running in standalone/watch mode
+            while watch or standalone:
                 if watch and changed(targets):
                     info("Change detected, reloading...")
 
                     # 1. Graceful shutdown of old scheduler and hooks
-                    await maybe_await(_call_hook(on_stop))
-                    await maybe_await(scheduler.shutdown(wait=True))
+                    stopped, scheduler = scheduler, None
+                    await stop(stopped)
 
                     # 2. Reload module if necessary (crucial for re-registering tasks)
                     if module:
@@ -152,7 +163,13 @@ def start(
 
         finally:
             # Final shutdown and cleanup
-            await maybe_await(_call_hook(on_stop))
-            await maybe_await(scheduler.shutdown(wait=True))
-
-    loop.run_until_complete(run_forever())
+            if scheduler is not None:
+                await stop(scheduler)
+
+    main = loop.create_task(run_forever())
+    try:
+        loop.run_until_complete(main)
+    except KeyboardInterrupt:
+        # raised by the loop, the service has still to be stopped
+        main.cancel()
+        loop.run_until_complete(main)
diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 554c3d5..2be2db9 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -42,6 +42,22 @@ async def maybe_await(value: Any) -> Any:
     return await value if inspect.isawaitable(value) else value
 
 
+async def shutdown_scheduler(scheduler: Any) -> None:
+    """
+    Shuts the scheduler down and waits until its shutdown tasks have finished.
+
+    Args:
+        scheduler: A scheduler which runs in the current event loop.
+    """
+    others = asyncio.all_tasks()
+    await maybe_await(scheduler.shutdown(wait=True))
+    # the event loop does it
+    await asyncio.sleep(0)
+    shutdown_tasks = asyncio.all_tasks() - others
+    if shutdown_tasks:
+        await asyncio.wait(shutdown_tasks)
+
+
 async def _call_hook(path: str | None) -> None:
     """
     Imports and executes a synchronous or asynchronous hook function specified by a dotted path.
-- 
2.43.0

