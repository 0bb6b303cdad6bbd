#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe_at=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe_at: a["observe_at"] = observe_at
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SB = "asyncz/schedulers/base.py"; SA = "asyncz/schedulers/asyncio.py"
prop("C01", "Every due run is submitted exactly once, in order, with honest coalescing",
 "While a scheduler is running with one process per store, every run time a task's trigger produces is handed to the task's executor exactly once, never before its time and in chronological order, and the next due time is then the first trigger time after it. When several run times of one task are due at the same pass, a coalescing task submits only the latest and reports exactly how many were folded into it; a non-coalescing task submits all of them. A task whose trigger is exhausted is removed after its last run.",
 ["schedules", "inputs", "fault_sequences"],
 "all mixes of date/interval/cron/or-combination tasks, coalescing flags, stores (memory and persistent), executor kinds, management calls between passes, event-loop stalls and late timers, scheduler pauses, and thread interleavings",
 "Tests drive process_tasks with a handful of frozen clocks and mocks; backlog shapes, stalls between reading the clock and re-arming the timer, several stores and concurrent completions are never combined.",
 [SB, SA, "asyncz/tasks/base.py", "asyncz/triggers/interval.py", "asyncz/triggers/date.py", "asyncz/triggers/cron/trigger.py"],
 [("due-task pass", SB + ":_process_tasks_of_store"), ("coalescing", SB + ":_coalesce_run_times"), ("backlog enumeration", "asyncz/tasks/base.py:get_run_times"), ("timer re-arm", SA + ":wakeup")],
 observe_at=["TASK_SUBMITTED / TASK_MAX_INSTANCES / TASK_REMOVED events", "calls of the task function", "Task.next_run_time"])
prop("C02", "Each submitted run ends in exactly one truthful outcome",
 "Every run time that was submitted is concluded, unless it is cancelled or its worker process is lost, by exactly one executed, error or missed event carrying that task, store and run time, with the function's actual return value or the Exception it raised. A run that starts within its mistrigger grace time (or has none) calls the function exactly once with the task's arguments; a run that starts later than its grace time is reported missed and does not call it. One run failing or being missed never affects the other runs of the same submission or of other tasks.",
 ["schedules", "inputs", "fault_sequences"],
 "all executor kinds, sync and async functions, grace times, executor start delays, worker-thread interleavings, raising functions, and broken or replaced worker pools",
 "Unit tests call run_task directly with a frozen clock and one run time; queueing delay inside pools, several run times per submission and concurrent completion order are not sampled.",
 ["asyncz/executors/base.py", "asyncz/executors/asyncio.py", "asyncz/executors/pool.py", "asyncz/executors/process_pool.py", "asyncz/executors/debug.py"],
 [("run loop with grace check", "asyncz/executors/base.py:run_task"), ("coroutine run loop", "asyncz/executors/base.py:run_coroutine_task"), ("completion callback", "asyncz/executors/pool.py:do_send_task")],
 observe_at=["TASK_EXECUTED / TASK_ERROR / TASK_MISSED events", "calls of the task function"])
prop("C03", "Concurrent instances never exceed max_instances and no slot leaks",
 "While a scheduler runs, at no moment are more submissions of one task in progress than its max_instances, and a submission refused for that reason is reported as such and runs nothing. Every submission gives its slot back when it ends, however it ends (success, exception, cancellation, a broken worker pool, a failed hand-over to the pool), so once the earlier runs are over the task can be submitted again. The limit of one task never restricts another task.",
 ["schedules", "fault_sequences", "configurations"],
 "all executors, run durations, simultaneous automatic and manual submissions, worker crashes, submission failures and cancellations, with every interleaving of completion and submission",
 "Existing tests check the counter with mock executors on one thread; leaks appear only when a future is cancelled, a pool breaks or two threads submit at the same time.",
 ["asyncz/executors/base.py", "asyncz/executors/pool.py", "asyncz/executors/asyncio.py"],
 [("slot accounting", "asyncz/executors/base.py:send_task"), ("slot release", "asyncz/executors/base.py:run_task_success / run_task_error")],
 state=[("instances", "number of running submissions per task id, kept by the scheduler")],
 observe_at=["overlap of task function calls", "TASK_MAX_INSTANCES events", "MaximumInstancesError"])
prop("C04", "Scheduling resumes after any transient store, executor or listener fault",
 "If stores, executors, listeners or task functions raise at any point of scheduling, the scheduler stays alive: other stores and tasks keep being served, and once the faults stop every task that is due is submitted within one store retry interval plus timer latency. No lock stays held, no task disappears and no run time is submitted twice because of a fault, except the run times whose store update was the operation that failed.",
 ["fault_sequences", "schedules"],
 "all placements of raised errors (before or after the effect) on store reads, updates, deletes and next-run queries, executor hand-over, listeners and lock acquisition, repeated for bounded bursts",
 "The tests inject one fault (get_due_tasks) once; errors from update_task, delete_task or get_next_run_time inside the timer callback are never exercised.",
 [SB, SA, "asyncz/locks.py"],
 [("retry interval", SB + ":_process_tasks_of_store"), ("timer re-arm after a pass", SA + ":wakeup"), ("lock guards", "asyncz/locks.py:LockProtected.protected")],
 observe_at=["submissions after the last fault", "lock availability", "tasks still in the store"])
prop("C05", "Pause, resume, reschedule, update and delete take effect when they return",
 "After pause_task or delete_task returns, no run of that task is newly submitted until it is resumed or added again; after update_task, reschedule_task or resume_task returns, submissions follow exactly the new trigger and next run time, and each change of another thread either precedes or follows a scheduling pass as a whole. Calls that name a missing task fail with a lookup error and a changed task never reappears after deletion.",
 ["schedules", "histories"],
 "all interleavings of management calls from several threads with scheduling passes, manual runs and completions, on every store kind",
 "Tests call the methods on one thread with the scheduler idle; lost updates between a pass and a concurrent call need specific interleavings.",
 [SB, "asyncz/tasks/types.py", "asyncz/stores/memory.py"],
 [("store lock around updates", SB + ":update_task"), ("delete", SB + ":delete_task"), ("pass under the store lock", SB + ":process_tasks")],
 observe_at=["TASK_SUBMITTED events versus the completion of each management call", "get_task after each call"])
prop("C06", "Nested start and shutdown: one running period, nothing runs outside it",
 "Only the first of nested starts starts the scheduler and only the matching last shutdown stops it, each dispatching one started or shutdown event; a shutdown without a matching start is refused and changes nothing. No task is submitted before start or after shutdown has taken effect, paused schedulers submit nothing until resumed, and a scheduler that was shut down, or whose start failed, can be started again and schedules normally.",
 ["schedules", "histories", "fault_sequences"],
 "all sequences and interleavings of start, shutdown, pause, resume, context managers and ASGI lifespans from one or more threads, with store or executor start-up faults, for thread-hosted, loop-hosted and native asyncio schedulers",
 "Tests cover a few straight-line start/stop sequences; queued wakeups racing shutdown, unbalanced calls and failed starts are not explored.",
 [SB, SA, "asyncz/schedulers/utils.py"],
 [("reference count", SB + ":inc_refcount / decr_refcount"), ("shutdown on the loop", SA + ":_shutdown"), ("queued wakeup", SA + ":wakeup")],
 state=[("state", "stopped, running or paused"), ("ref_counter", "number of unmatched starts")],
 observe_at=["scheduler events", "task submissions", "scheduler.running"])
prop("C07", "Shutdown always completes and runs each shutdown task exactly once",
 "Shutting down always completes within a bounded number of steps, whatever tasks, listeners or other threads are doing at that moment, unless a running task itself never ends. Each task with the shutdown trigger, synchronous or coroutine, runs exactly once during the shutdown that stops the scheduler and never otherwise, even if another one raises. With wait=True pool executors have finished every submitted run when shutdown has completed.",
 ["schedules", "configurations", "fault_sequences"],
 "all interleavings of shutdown with running pool tasks that call back into the scheduler, listeners that query it, management calls of other threads, failing shutdown tasks and failing stores",
 "The tests shut down idle schedulers; the lock order between shutdown, worker threads and listeners is never contended.",
 [SB, SA, "asyncz/executors/pool.py", "asyncz/triggers/shutdown.py"],
 [("shutdown under both locks", SB + ":shutdown"), ("shutdown tasks", SB + ":_shutdown_fn_helper / _ashutdown_fn_helper"), ("pool shutdown", "asyncz/executors/pool.py:shutdown")],
 observe_at=["return of shutdown", "calls of shutdown task functions", "thread join"])
prop("C08", "All task stores behave as the same durable sorted map",
 "Every store behaves like one map from task id to task: add refuses an existing id, update and delete refuse a missing one, lookup returns what was last stored with every field intact, due queries return exactly the tasks whose next run time has come in run-time order, the next run time is the earliest scheduled one and listings put paused tasks last. A store object reopened on the same durable data gives the same answers, and an operation that fails because of its backend took effect completely or not at all.",
 ["histories", "inputs"],
 "all sequences of store operations, closes and reopens over ids, sub-second run times, time zones, paused states, triggers and arguments, on memory, file, SQL, Redis and MongoDB stores, with and without encryption",
 "Tests run a fixed script per store with whole-second times; long random histories with ties, reordering updates and reopen are not compared against a model.",
 ["asyncz/stores/memory.py", "asyncz/stores/file.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/redis.py", "asyncz/stores/mongo.py", "asyncz/stores/base.py"],
 [("sorted index", "asyncz/stores/memory.py:get_task_index"), ("run-time index", "asyncz/stores/redis.py:update_task"), ("serialisation", "asyncz/stores/base.py:serialize_task_state")],
 observe_at=["return values and exceptions of the public store methods"])
prop("C09", "A crash or I/O error never corrupts or loses a file-stored task",
 "After a process crash at any point, a file store reopened on the surviving directory contains for each task the state before or after the interrupted operation, and every acknowledged operation is still in effect. An I/O error (full disk, failing read, too many open files) makes the operation fail or be retried and never destroys a task that was stored before; a record that is really undecodable is dropped without affecting any other task.",
 ["crash_points", "fault_sequences", "histories"],
 "every crash point between file-system calls, short and failing writes, full disks, and transient open/read/stat errors, over random operation histories",
 "No test crashes or fails a write; the in-place truncate-and-write, the buffered flush and the unlink-on-error paths run only when everything succeeds.",
 ["asyncz/stores/file.py"],
 [("record write", "asyncz/stores/file.py:add_task / update_task"), ("record read and cleanup", "asyncz/stores/file.py:lookup_task / get_tasks")],
 observe_at=["contents of a fresh file store opened after the crash or fault"])
prop("C10", "Stores shared by several processes or threads are linearizable",
 "When several processes or threads use stores on the same directory, database or server, every completed operation appears to take effect at one moment between its call and its return: of concurrent adds of an id one wins and the others report a conflict, an update never re-creates a deleted task, and a reader sees a complete version of a task or none, never a torn one. No reader ever removes a task that another process is writing.",
 ["schedules", "histories"],
 "all interleavings of file-system calls or server commands of up to four concurrent users on shared file, SQL, Redis and MongoDB backends",
 "Every store test uses one store object on one thread.",
 ["asyncz/stores/file.py", "asyncz/stores/redis.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/mongo.py", "asyncz/file_locking.py"],
 [("file locks", "asyncz/file_locking.py:with_lock"), ("exclusive create", "asyncz/stores/file.py:add_task"), ("server transactions", "asyncz/stores/redis.py:add_task / update_task")],
 observe_at=["concurrent operation history with call and return points", "final contents"])
prop("C11", "Schedulers sharing a store and lock path never run a due task twice",
 "When several schedulers in different processes share a store and a lock path, at most one of them processes the store at any time, so each run time is submitted by exactly one of them and none is lost, also while schedulers start, stop or crash. The lock is released whenever its holder leaves the section or dies, and waiting schedulers retry within the retry interval.",
 ["schedules", "crash_points", "configurations"],
 "all interleavings of two to four scheduler processes on a shared file or SQL store, with staggered starts, shutdowns that clean up the lock file, crashes inside and outside the locked section, and restarts",
 "The multi-process tests start two schedulers once and let the operating system choose one schedule; lock-file removal during use and crashes are not covered.",
 ["asyncz/locks.py", "asyncz/file_locking.py", SB, "asyncz/stores/base.py"],
 [("inter-process lock", "asyncz/locks.py:FileLockProtected"), ("locked pass", SB + ":_process_tasks_of_store")],
 observe_at=["overlap of locked sections", "submissions across all schedulers"])
prop("C12", "The management API is safe to call from any thread at any time",
 "Calls to add, look up, list, update, pause, resume, delete, remove-all and the inspection methods, issued concurrently from several threads while the scheduler runs, never raise anything but their documented errors and give results some sequential order of the calls explains. Adding and removing stores, executors and listeners concurrently never disturbs tasks in other stores, and replacing an existing task keeps exactly one task under the id.",
 ["schedules", "histories"],
 "all interleavings, at source-line granularity, of two to four client threads and the scheduler thread over random operation mixes",
 "The test-suite has no concurrent client; data races on shared containers show only under preemption in the middle of a call.",
 [SB, "asyncz/stores/memory.py"],
 [("store lock", SB + ":add_task / update_task / delete_task / get_tasks"), ("sorted list and index", "asyncz/stores/memory.py")],
 observe_at=["results and exceptions of concurrent calls", "final task listing"])
prop("C13", "Event listeners get every matching event once and cannot break the scheduler",
 "Each registered listener receives every event whose code is in its mask exactly once, in dispatch order per dispatching thread, with the scheduler identity on task events, from when it was added until it is removed. A listener that raises, blocks for a while, adds or removes listeners or calls the scheduler back never prevents the other listeners from being called, the operation from completing or later scheduling.",
 ["schedules", "histories", "fault_sequences"],
 "all listener sets, masks, raising and re-entrant listeners, and dispatches interleaved from the loop, worker and client threads",
 "Tests attach one mock listener and dispatch on one thread.",
 [SB, "asyncz/events/base.py"],
 [("dispatch", SB + ":dispatch_event"), ("registration", SB + ":add_listener / remove_listener")],
 observe_at=["events received by instrumented listeners"])
prop("C14", "Encrypted stores never yield a forged, altered or foreign task",
 "With a store encryption key set, nothing of a task's callable, arguments or name is readable in the stored bytes, equal tasks are stored differently each time, and data written under the key reads back identically after reopening. A record that was altered, truncated, swapped for garbage or written under another key is never turned into a task and never affects other tasks.",
 ["fault_sequences", "inputs", "histories"],
 "all single and multiple corruptions (bit flips, truncation, extension, record damage by torn writes, wrong or missing keys) applied to stored records of every persistent store",
 "Tests re-run the plain store tests with a key set and never damage a record.",
 ["asyncz/stores/base.py", "asyncz/stores/file.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/redis.py", "asyncz/stores/mongo.py"],
 [("encryption boundary", "asyncz/stores/base.py:conditional_encrypt / conditional_decrypt"), ("restore failure handling", "asyncz/stores/sqlalchemy.py:get_tasks")],
 observe_at=["raw stored bytes", "tasks returned after corruption"])
prop("C15", "Run history converges to the true outcome of every run",
 "Whatever order submission and execution events of concurrent runs arrive in, the dashboard's run history keeps exactly one record per task, store and run time, and ends with its true terminal status, return value or error, source and coalesced count; a finished record never falls back to running. The history never exceeds its size limit, evicts oldest first, its summary counts match its records, and recording or querying from any thread never raises.",
 ["schedules", "histories"],
 "all interleavings and orders of events from scheduler, worker and manual-run threads, with queries, clears and evictions in between",
 "Tests feed events in submission order on one thread.",
 ["asyncz/contrib/dashboard/history.py"],
 [("upsert and late submission", "asyncz/contrib/dashboard/history.py:record_submission / record_execution / _upsert"), ("eviction", "asyncz/contrib/dashboard/history.py:_trim")],
 observe_at=["history query, get and summary"])
prop("C16", "Event, audit and log stores keep the newest records, complete and in order",
 "The dashboard's scheduler-event, audit and log storages each keep exactly the newest records up to their limit, newest first, once each, with the fields that were recorded, and filters return exactly the matching ones of those. Installing a listener or log handler again on the same scheduler never duplicates records, and concurrent appends, queries and clears from any threads lose nothing and raise nothing.",
 ["schedules", "histories"],
 "all interleavings of appends, queries, filters, clears and re-installations from several threads, with bounded storages overflowing",
 "Tests append a few records on one thread, below the limits.",
 ["asyncz/contrib/dashboard/events.py", "asyncz/contrib/dashboard/audit.py", "asyncz/contrib/dashboard/logs/storage.py", "asyncz/contrib/dashboard/logs/handler.py"],
 [("event ring", "asyncz/contrib/dashboard/events.py:MemorySchedulerEventStorage"), ("audit trail", "asyncz/contrib/dashboard/audit.py:MemoryAuditTrailStorage"), ("log ring", "asyncz/contrib/dashboard/logs/storage.py:MemoryLogStorage")],
 observe_at=["query and summary results"])
prop("C17", "Remote control equals local control, and transport faults are reported as such",
 "A remote scheduler client gives the same results, errors and effects as calling the scheduler it controls directly, for every supported operation, and no call has an effect without a valid token when one is required. When the transport fails, times out or returns garbage the client raises its documented error, a request that reached the server is applied at most once, and one that did not is not applied.",
 ["fault_sequences", "histories", "inputs"],
 "all sequences of remote operations with requests or responses lost, delayed past the timeout, duplicated by the network never by the client, truncated or corrupted, and concurrent clients",
 "Tests use an in-process transport that always succeeds.",
 ["asyncz/contrib/dashboard/remote.py"],
 [("client", "asyncz/contrib/dashboard/remote.py:RemoteSchedulerClient"), ("server app", "asyncz/contrib/dashboard/remote.py:create_remote_scheduler_app")],
 observe_at=["client results and exceptions", "state of the controlled scheduler"])
prop("C18", "A rejected management call leaves tasks and schedule unchanged",
 "When add, update, reschedule, resume or run of a task is refused (invalid value, unknown attribute, missing task, unknown store, conflicting id, unserialisable function, failing store), the task, its stored copy, its position in the schedule and all other tasks are exactly as before and no change event is emitted. A later scheduling pass behaves as if the call had never been made.",
 ["inputs", "histories", "fault_sequences"],
 "all invalid argument combinations and store failures, on every store kind, at any point of a history of valid operations while the scheduler runs",
 "Tests check that a bad value raises; they do not compare the complete state and subsequent schedule afterwards.",
 [SB, "asyncz/tasks/base.py", "asyncz/stores/base.py"],
 [("validate-then-apply", "asyncz/tasks/base.py:update_task"), ("store update", SB + ":update_task")],
 observe_at=["task fields, listings and later submissions before and after the refused call"])
prop("C19", "A persisted task keeps its exact schedule across restarts and downtime",
 "A task restored from a persistent store after the scheduler was stopped or killed keeps its trigger, arguments, limits and next run time, and produces the same later run times as an uninterrupted one; it can be paused, resumed, previewed and rescheduled as before. Run times that passed during downtime are handled at start like any late backlog (run, coalesced or missed according to the task), and no acknowledged task is lost or run again for a run time already submitted and recorded.",
 ["crash_points", "histories", "inputs"],
 "all triggers and options on file, SQL, Redis and MongoDB stores, with clean shutdowns and crashes at any scheduling step, arbitrary downtime and repeated restarts",
 "Tests pickle single triggers; no test stops a scheduler mid-schedule, restarts it on the same data later and compares complete schedules.",
 ["asyncz/stores/base.py", "asyncz/tasks/base.py", "asyncz/triggers/interval.py", "asyncz/triggers/base.py", "asyncz/triggers/cron/trigger.py", "asyncz/datastructures.py"],
 [("task state", "asyncz/tasks/base.py:__getstate__ / __setstate__"), ("trigger state", "asyncz/triggers/interval.py:__getstate__")],
 observe_at=["submissions before and after each restart", "restored task fields"])
prop("C20", "Clock steps and daylight-saving changes never cause early, lost or double runs",
 "If the wall clock is stepped forwards or backwards, or the zone's offset changes, no task runs before its scheduled instant, no run time is submitted twice, and every run time that is due is submitted once the current timer expires. Interval tasks keep their interval in elapsed time across offset changes, cron tasks run at every instant whose wall clock time matches (in both passes of a repeated hour) and never twice for one instant, and every scheduled instant exists in its time zone.",
 ["fault_sequences", "inputs", "schedules"],
 "all placements and sizes of clock steps relative to timers, drifting clocks, and schedules crossing daylight-saving changes in several time zones",
 "Tests freeze the clock; stepping it while a timer is armed, or running through an offset change, is not exercised.",
 [SB, SA, "asyncz/triggers/interval.py", "asyncz/triggers/cron/trigger.py", "asyncz/utils.py"],
 [("wait computation", SB + ":process_tasks"), ("timer", SA + ":start_timer"), ("normalisation", "asyncz/utils.py:normalize")],
 observe_at=["submissions against the simulated wall clock"])
prop("C21", "A manual run submits exactly once and keeps the schedule intact",
 "A successful run_task submits the task immediately, exactly once (the due backlog if there is one, otherwise one run for now when forced), reports it as manual and moves the next run strictly into the future according to the trigger; every later run still happens on time. When the trigger is finished the task is removed, or kept paused if so requested; a refused run changes nothing, and concurrent passes, pauses and deletions are never overwritten by it.",
 ["schedules", "histories"],
 "all interleavings of manual runs from several threads with automatic passes and management calls, with paused, due, exhausted and instance-limited tasks and all executors",
 "Tests run it on an idle scheduler and one thread.",
 [SB],
 [("manual submission", SB + ":run_task")],
 observe_at=["TASK_SUBMITTED events with source manual", "next_run_time and later submissions"])
prop("C22", "Inspection never changes anything and previews what will really run",
 "Snapshots, filtered listings, previews and scheduler information never change task or scheduler state and agree with each other and with the task listing at some moment during the call. The run times a preview lists are exactly the run times later submitted if nothing is changed meanwhile, and a preview that says the schedule is exhausted is right.",
 ["histories", "inputs", "schedules"],
 "all task mixes, filters, sort orders and preview lengths, called concurrently with a running scheduler on every store kind",
 "Tests preview one task with a frozen clock and do not execute the previewed schedule.",
 [SB, "asyncz/tasks/inspection.py", "asyncz/schedulers/inspection.py"],
 [("preview", SB + ":preview_task_runs"), ("listing", SB + ":get_task_infos"), ("scheduler info", SB + ":get_scheduler_info")],
 observe_at=["inspection results versus later submissions"])
prop("C23", "Combined triggers fire exactly when their parts say and always answer",
 "A task with an and-trigger runs exactly at the instants all its triggers share and ends when one of them ends; a task with an or-trigger runs at every instant any of its triggers names, once per instant, and ends when all have ended. Asking a combined trigger for its next time always returns in bounded time (a search without a common time gives up after the documented number of steps), so it can never block the scheduler.",
 ["inputs", "histories", "schedules"],
 "all combinations of date, interval and cron triggers with offsets, end dates and previous run times, driven through complete simulated schedules including late passes",
 "Tests check two or three hand-picked combinations and only the first answer.",
 ["asyncz/triggers/combination.py", "asyncz/triggers/base.py"],
 [("and", "asyncz/triggers/combination.py:AndTrigger.get_next_trigger_time"), ("or", "asyncz/triggers/combination.py:OrTrigger.get_next_trigger_time")],
 observe_at=["submitted run times of combined-trigger tasks", "steps used per query"])
prop("C24", "Dashboard actions do what they say and are audited truthfully",
 "Each task action taken in the dashboard (run, pause, resume, remove, edit, create, single or bulk) has exactly the effect of the corresponding scheduler call on exactly the selected tasks, and leaves one audit record per action and task whose status says truthfully whether it succeeded. An action that fails on one task, or because of a store or executor fault, does not stop the remaining ones or break the page.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of dashboard requests, including unknown and concurrently removed tasks, against a running scheduler with faults",
 "Tests post one action at a time to a healthy scheduler.",
 ["asyncz/contrib/dashboard/controllers/tasks.py", "asyncz/contrib/dashboard/controllers/_helpers.py", "asyncz/contrib/dashboard/audit.py"],
 [("task actions", "asyncz/contrib/dashboard/controllers/tasks.py"), ("audit", "asyncz/contrib/dashboard/audit.py:record_audit_event")],
 observe_at=["HTTP responses", "scheduler state", "audit records"])
prop("C25", "Cron expressions select exactly the documented instants",
 "For every valid cron expression the next time returned is the earliest instant after the reference that matches all fields, and invalid expressions are rejected.",
 ["inputs"], "all expressions and reference times",
 "The expression space is far larger than the sampled table.",
 ["asyncz/triggers/cron/trigger.py", "asyncz/triggers/cron/expressions.py", "asyncz/triggers/cron/fields.py"],
 [("field search", "asyncz/triggers/cron/trigger.py:get_next_trigger_time")])
prop("C26", "Shape conversion round-trips and rejects unsupported values",
 "Converting a value with a registered shape and back gives an equal value, and an unsupported value or migration raises the documented error.",
 ["inputs"], "all values and registered shapes",
 "Only a few values are sampled.",
 ["asyncz/shapes/base.py", "asyncz/shapes/builtins.py", "asyncz/shapes/registry.py"],
 [("conversion", "asyncz/shapes/builtins.py")])
prop("C27", "The dashboard is served only to sessions it has issued for a login",
 "With login enabled, no dashboard page or action other than login, logout and static assets is served without a session that this deployment issued for a login its backend accepted and that is not older than max_age: whatever the path, method, headers, cookie (forged, tampered, expired, from another process or another user of the signing key), mount or proxy prefix, restart or concurrent client. A refused request has no effect and is answered by a redirect to the login (401 with HX-Redirect for fragments) which leads back to the address asked for. A valid session is never turned away, a login succeeds exactly when the backend accepts the credentials, and it never redirects to another site.",
 ["histories", "inputs", "crash_points"], "all histories of requests of any clients, clock advances, restarts and outages of the user directory",
 "Tests sample a login and a few paths; what matters is every path and cookie over every history of logins, logouts, expiry and restarts.",
 ["asyncz/contrib/dashboard/admin/middleware/auth_gate.py", "asyncz/contrib/dashboard/admin/core.py", "asyncz/contrib/dashboard/admin/backends.py", "asyncz/contrib/dashboard/config.py"],
 [("gate", "asyncz/contrib/dashboard/admin/middleware/auth_gate.py"), ("login", "asyncz/contrib/dashboard/admin/backends.py")])
prop("C28", "A CLI command acts once, on what it names, and runs nothing else",
 "The commands of the command line run as processes of their own on stores which another process may be serving. list, inspect, preview, timeline, status, doctor, instances and update --dry-run leave every stored task as it is and execute nothing, and what they report is what is stored. add, pause, resume, remove and update have exactly the effect of the scheduler call they stand for on the task they name and none on others, and execute nothing: neither due tasks nor shutdown tasks, which remain for the scheduler that serves the store. run executes the named task now, once per due run, and the command ends after that run. A command which reports success has had its effect; one which fails, is refused or killed leaves the named task as it was or fully changed, and nothing else changed.",
 ["histories", "schedules", "crash_points", "fault_sequences"], "all sequences and overlaps of commands of any processes, serving schedulers, database failures and kills",
 "Tests run one command at a time on a fresh database with nothing due and no other scheduler.",
 ["asyncz/cli/commands/list.py", "asyncz/cli/commands/add.py", "asyncz/cli/commands/run.py", "asyncz/cli/commands/update.py", "asyncz/cli/commands/remove.py", "asyncz/cli/commands/pause.py", "asyncz/cli/commands/resume.py", "asyncz/cli/utils.py"],
 [("temporary scheduler", "asyncz/cli/utils.py:TemporaryScheduler"), ("bootstrap", "asyncz/cli/bootstrap_loader.py:load_bootstrap_scheduler")])
prop("C29", "asyncz start serves stored and configured jobs, then stops cleanly",
 "asyncz start loads the jobs of --module or --config, serves them and the tasks of its stores from the moment on_start has run, at the instants of their triggers and with the arguments they were given, until Ctrl+C. Ctrl+C while it serves stops it cleanly: on_stop is called once for every completed on_start, then every shutdown task runs once and to its end, runs in thread pools are awaited, the command returns, and nothing runs after it. With --watch, a change of the jobs file at any moment, also while it is being loaded, is served within one polling interval: the old jobs stop, the new ones start, on_stop and on_start alternate. An error of a hook is reported and the scheduler is shut down nevertheless.",
 ["histories", "schedules", "fault_sequences"], "all job sources, schedules, instants of file changes and of Ctrl+C, and failing hooks",
 "The tests start the command only without --standalone and without jobs, so that it ends at once.",
 ["asyncz/cli/commands/start.py", "asyncz/cli/loader.py", "asyncz/cli/utils.py"],
 [("serving loop", "asyncz/cli/commands/start.py:start"), ("job loaders", "asyncz/cli/loader.py:load_jobs_from_config")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
