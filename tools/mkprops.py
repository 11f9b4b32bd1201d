#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one entry per property).  Run to regenerate."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

TS = "ipyparallel/controller/task_scheduler.py"
HUB = "ipyparallel/controller/hub.py"
CL = "ipyparallel/client/client.py"
AR = "ipyparallel/client/asyncresult.py"
VW = "ipyparallel/client/view.py"

prop("C01", "Every load-balanced task gets exactly one final outcome, and the hub is told",
 "Every task submitted to the load-balancing scheduler receives exactly one final reply, sent to the client that submitted it and carrying its message id: either an engine's reply passed through unaltered, or a scheduler-generated error. "
 "Once every engine has answered or died and at least one engine is alive, no task is left without a reply unless it still waits for something that can still happen. "
 "The monitoring stream the hub listens to carries exactly one submission record and one completion record per task, and one record naming the right engine per dispatch.",
 ["histories","schedules","fault_sequences"],
 "Any interleaving of submissions, results (ok and error), engine registrations, losses of engines, and the passing of time.",
 "Tests run a handful of fixed scenarios on a live cluster whose interleaving is whatever the OS picks; loss or duplication of a reply needs specific orders of results, engine deaths and timers.",
 [TS, "ipyparallel/controller/scheduler.py"],
 [("dispatch_submission / dispatch_result / handle_result", TS), ("handle_stranded_tasks", TS), ("fail_unreachable", TS), ("update_graph", TS)],
 ["messages sent on the client, engine and monitor streams"])

prop("C02", "Tasks run only once their dependencies allow; impossible tasks fail promptly",
 "A load-balanced task with time dependencies is sent to an engine only when those dependencies are satisfied by the tasks finished so far, and one with location dependencies only to an engine where the required tasks ran. "
 "A task fails with an impossible-dependency error only when its dependencies can truly never be met, and it does fail (rather than wait forever or run) once they cannot; a task that depends on an unknown task or on itself fails with an invalid-dependency error without running, unless that dependency is already met. "
 "The success/failure and all/any settings of a dependency are honoured.",
 ["histories","schedules"],
 "Any dependency graph (after/follow, all/any, success/failure, unknown ids, self-dependency), any completion order and outcome of the tasks in it.",
 "The tests check a few small graphs; the state space of graphs times completion orders times outcomes is not sampled.",
 [TS, "ipyparallel/controller/dependency.py"],
 [("dispatch_submission dependency handling", TS), ("maybe_run.can_run", TS), ("update_graph", TS), ("fail_unreachable", TS), ("Dependency.check/unreachable", "ipyparallel/controller/dependency.py")],
 ["which task is sent to which engine, and when; error replies to clients"])

prop("C03", "Task placement honours targets, queue limits and scheme without idling engines",
 "A load-balanced task is only ever dispatched to a registered engine among its requested targets, and never to an engine that already has as many outstanding tasks as the high-water mark allows. "
 "Among eligible engines the configured scheme decides (least-loaded: one with the minimal number of outstanding tasks; least-recently-used: the one assigned longest ago). "
 "No task waits while an engine that could run it has room, and equally-constrained waiting tasks run in submission order.",
 ["histories","schedules","configurations"],
 "Any scheme (leastload, lru, twobin, weighted, plainrandom), high-water mark, target sets, arrival/departure of engines, order of results.",
 "Tests use one or two configurations with timing-dependent loads, and never compare the choice with what the scheme prescribes.",
 [TS],
 [("maybe_run.can_run / submit_task", TS), ("leastload, lru, twobin, weighted, plainrandom", TS), ("add_job / finish_job / update_graph", TS)],
 ["identity frame of each message sent to engines"])

prop("C04", "Retries, unmet dependencies, engine death and timeouts do what was asked",
 "A failing task is re-run at most as many times as its retries setting, never again on an engine where it failed, and the client sees only the last outcome (or an impossible-dependency error if no allowed engine is left); an unmet functional dependency moves the task to another engine without using up retries. "
 "A task whose engine dies is retried on another engine if retries remain and otherwise fails with an engine error. "
 "A task waiting in the queue longer than its timeout fails with a timeout error, and a running or finished one never does.",
 ["histories","fault_sequences","schedules"],
 "Any retries and timeout settings, pattern of failures and unmet dependencies, death of any engine at any point, passing of time.",
 "Tests cover one retry pattern, and engine death is timing-dependent and only tried with one task at a time.",
 [TS],
 [("dispatch_result retry branch", TS), ("handle_unmet_dependency", TS), ("handle_stranded_tasks", TS), ("Job.timeout / job_timeout", TS)],
 ["engine dispatches and client replies over virtual time"])

prop("C05", "Dependency objects decide readiness and impossibility correctly",
 "For any set of tasks and any sets of completed and failed tasks, a dependency reports itself satisfied exactly when all (or, in any-mode, at least one) of its tasks have finished in a way its success/failure flags accept, with an empty one always satisfied. "
 "It reports itself unreachable only if no future outcome of the unfinished tasks could satisfy it, and always when none could. "
 "Converting it to its dictionary form and back preserves this behaviour, and it accepts result handles and strings interchangeably. "
 "A dependency in any of its forms that is set as a flag of a load-balanced view (permanently, temporarily or for one call), like its other flags, reaches the scheduler unchanged with every task submitted under it, and with no other.",
 ["inputs", "histories"],
 "All id sets, completed/failed sets, mode and flag combinations.",
 "Tests check about ten hand-picked combinations; the truth table over mode x flags x partial completion is never enumerated.",
 ["ipyparallel/controller/dependency.py"],
 [("Dependency.check", "ipyparallel/controller/dependency.py"), ("Dependency.unreachable", "ipyparallel/controller/dependency.py"), ("Dependency.from_dict/as_dict", "ipyparallel/controller/dependency.py")],
 ["return values of the dependency API"])

prop("C06", "Serialising any picklable object and deserialising it yields an equal object",
 "Any picklable object, including nested lists, tuples, dicts, byte strings and numpy arrays of any shape, dtype and memory layout, survives serialisation and deserialisation with equal value and type, whatever the buffer and item thresholds and whether buffers are copied or not. "
 "A packed function call unpacks to the same function, positional arguments and keyword arguments, consuming exactly its own buffers. "
 "The original objects are left unmodified.",
 ["inputs","configurations"],
 "Any nesting of supported types and sizes around the thresholds; any buffer_threshold and item_threshold; frames given as bytes, memoryview or messages.",
 "Tests try a dozen literals with the default thresholds, never sizes around the thresholds in combination with nesting.",
 ["ipyparallel/serialize/serialize.py", "ipyparallel/serialize/canning.py"],
 [("serialize_object / deserialize_object", "ipyparallel/serialize/serialize.py"), ("pack_apply_message / unpack_apply_message", "ipyparallel/serialize/serialize.py"), ("can/uncan, CannedArray/CannedBytes", "ipyparallel/serialize/canning.py")],
 ["deserialised object vs original"])

prop("C07", "Functions and classes sent to engines behave as they do locally",
 "A function defined interactively (lambda, closure, nested or recursive definition, with default, keyword-only and variadic arguments) behaves after being sent exactly as the original does: same return value or same exception for any arguments, resolving its global names in the namespace of the engine. "
 "Interactively defined classes, partials and references to remote names likewise arrive working. "
 "Sending never modifies the original function, its closure or its defaults.",
 ["programs","inputs"],
 "Any function shape (arguments, defaults, closures, free globals, annotations) and call arguments.",
 "Tests contain a few fixed functions; combinations of keyword-only defaults, closures, nested functions and canned defaults are not covered.",
 ["ipyparallel/serialize/canning.py", "ipyparallel/serialize/codeutil.py"],
 [("CannedFunction / CannedClass / CannedPartial / CannedCell / Reference", "ipyparallel/serialize/canning.py"), ("code reduction", "ipyparallel/serialize/codeutil.py")],
 ["outcome of calling the reconstructed function"])

prop("C08", "Partitioning a sequence over engines and joining it back is the identity",
 "Splitting any sequence (list, tuple, string, range, numpy array, or other iterable) into any number of partitions yields contiguous pieces in order, with sizes differing by at most one, no element lost or duplicated. "
 "Joining the pieces of a list, tuple or array gives the same elements back in the same order, as an array of the same type and shape or as a list.",
 ["inputs"],
 "Any sequence type and length and any number of partitions, including more partitions than elements.",
 "Tests check two or three lengths and partition counts.",
 ["ipyparallel/client/map.py"],
 [("Map.getPartition / joinPartitions", "ipyparallel/client/map.py"), ("RoundRobinMap", "ipyparallel/client/map.py")],
 ["partition and join results"])

prop("C09", "Parallel map gives the same answer as the builtin map",
 "Mapping a function over any sequences with a direct or load-balanced view, blocking or not, with any chunk size and number of engines, gives the same values in the same order as the builtin map, whatever order the engines answer in. "
 "Iterating the result yields each value exactly once, in submission order when ordered and in some order otherwise. "
 "If calls fail, the error is raised to the caller and, when exceptions are requested as results, each failing part is represented by its exception.",
 ["inputs","schedules","configurations"],
 "Any input sequences (several, of different lengths, generators, empty), chunk sizes, engine counts, reply orders, failing elements.",
 "Tests run fixed inputs on a live cluster with one natural order of replies.",
 ["ipyparallel/client/remotefunction.py", VW, AR, "ipyparallel/client/map.py"],
 [("ParallelFunction.__call__/map", "ipyparallel/client/remotefunction.py"), ("DirectView.map / LoadBalancedView.map", VW), ("AsyncMapResult", AR)],
 ["values and exceptions seen by the caller"])

prop("C10", "Task database backends answer every query exactly as a reference model would",
 "For any history of adding, updating and dropping task records, the in-memory and SQLite databases return exactly the records (and keys) that a reference interpretation of the query language selects: equality, $gt/$gte/$lt/$lte/$ne/$in/$nin/$exists and their combinations. "
 "Stored values come back equal to what was stored, the history lists every stored task once in order of submission, and modifying a returned record does not alter the database. "
 "The two backends agree with each other.",
 ["histories","inputs"],
 "Any sequence of database operations with any record contents and any queries.",
 "Tests run a dozen fixed queries; in particular several equality conditions together, comparisons against missing values and empty selections are not covered.",
 ["ipyparallel/controller/dictdb.py", "ipyparallel/controller/sqlitedb.py"],
 [("CompositeFilter / DictDB.find_records", "ipyparallel/controller/dictdb.py"), ("SQLiteDB._render_expression / find_records", "ipyparallel/controller/sqlitedb.py")],
 ["results of find_records, get_record, get_history"])

prop("C11", "Task databases keep what they must: culling respects limits, SQLite survives",
 "The in-memory database with record or size limits drops oldest records first, keeps itself within its limits after every insertion and never forgets which ids it dropped on purpose, reporting them as culled rather than unknown. "
 "The SQLite database, closed and reopened, holds every record committed before closing, and a reopened or schema-changed table never corrupts or mixes up data. "
 "Databases in one process are independent of each other.",
 ["histories","configurations","crash_points"],
 "Any sequence of additions, updates and drops with any limits; closing and reopening at any point.",
 "Tests use one limit with one insertion pattern; close and reopen is not tested under arbitrary histories.",
 ["ipyparallel/controller/dictdb.py", "ipyparallel/controller/sqlitedb.py"],
 [("DictDB._cull_oldest/_maybe_cull", "ipyparallel/controller/dictdb.py"), ("SQLiteDB._init_db / commit loop", "ipyparallel/controller/sqlitedb.py")],
 ["contents of the databases after each operation"])

prop("C12", "The hub's engine registry matches what registered, unregistered and died",
 "At every moment the engines the hub reports to clients are exactly those that completed registration and have neither unregistered nor been declared dead, each with its own distinct id and identity; ids are assigned in increasing order, unless an engine asks for a free one, and are never shared by two live engines. "
 "A registration whose identity conflicts with a live or pending one is refused without disturbing the others, and one that never produces a heartbeat is forgotten. "
 "Every change is announced to clients exactly once, and unfinished tasks sent directly to a lost engine are recorded as failed (load-balanced ones are the scheduler's), so that clients do not hang.",
 ["histories","schedules","fault_sequences"],
 "Any interleaving of registration requests, heartbeats, timeouts, unregistrations and engine failures.",
 "Tests register a few engines and never interleave conflicting registrations, timeouts and heart failures.",
 [HUB, "ipyparallel/controller/heartmonitor.py"],
 [("register_engine / finish_registration / unregister_engine", HUB), ("handle_new_heart / handle_heart_failure", HUB), ("_handle_stranded_msgs", HUB)],
 ["connection and registration replies, notifications, query results"])

prop("C13", "The hub's record of tasks matches the traffic it observed",
 "For any interleaving of the observed submissions, dispatches, results and output messages, the hub's answers to status, result, history, queue-status and database queries match the traffic: each task is pending until its result has been seen and completed afterwards, with the content, buffers, error and captured output (stdout, stderr, error, execute_input, execute_result) that its engine sent. "
 "Purging removes exactly the requested finished tasks and never silently a pending one; resubmitting creates a new task with the same content, metadata and buffers and refers to it. "
 "A client's request that the hub cannot satisfy yields an error reply, and never no reply.",
 ["histories","schedules"],
 "Any order of monitored messages that the connections allow (output before the submission or after the result included), with any queries in between.",
 "Tests only see well-ordered traffic from one client, and few query combinations.",
 [HUB],
 [("save_queue_request/save_queue_result", HUB), ("save_task_request/save_task_result/save_task_destination", HUB), ("save_iopub_message", HUB), ("get_results, queue_status, purge_results, resubmit_task, db_query", HUB)],
 ["replies on the query socket"])

prop("C14", "A restarted hub resumes its engines and never reuses their ids",
 "A hub that saved its state and is restarted from it, any number of times and at any point, reports the engines that are still alive under the same ids and identities as before, and drops those that are not. "
 "The id of an engine that completed registration is not given to a different engine that did not ask for it, after any number of restarts. "
 "The state file is always a complete description of the current registry, also after a crash at any point of writing it.",
 ["histories","crash_points"],
 "Any history of registrations and unregistrations split at any points by restarts.",
 "One test does a single restart.",
 [HUB],
 [("_save_engine_state / _load_engine_state", HUB)],
 ["engine state file; registry after reload"])

prop("C15", "Heartbeat monitoring declares engines dead when, and only when, they stop",
 "An engine is declared dead only once it failed to answer more consecutive heartbeats than the configured allowance, and one that stops answering is declared dead at that point; an answer to the last ping but one is late but counts. "
 "Each heart is announced once when it first beats and once when it fails; answers to old or foreign pings never keep an engine alive nor create one. "
 "A heart that has been declared dead is treated as new if it beats again.",
 ["schedules","fault_sequences"],
 "Any schedule of beats, answers (on time, one period late, stale, garbage) and silences per engine.",
 "Tests use one or two engines that answer or are killed.",
 ["ipyparallel/controller/heartmonitor.py"],
 [("HeartMonitor.beat / handle_pong / handle_heart_failure", "ipyparallel/controller/heartmonitor.py")],
 ["new-heart and heart-failure notifications"])

prop("C16", "A broadcast reaches every target exactly once and comes back complete",
 "A message broadcast through the scheduler tree, for any depth and set of targets, is delivered exactly once to each targeted engine and to no other, with unchanged content and buffers. "
 "The client receives one reply per engine, or in coalescing mode one combined reply in which every engine's result is present and attributed to the right engine, whatever order the engines answer in. "
 "An error on any engine is reported to the client and never masked by other engines' successes.",
 ["inputs","schedules","configurations"],
 "Any tree depth, target subset, coalescing mode, concurrent broadcasts and reply order.",
 "Tests use one tree depth and natural reply order.",
 ["ipyparallel/controller/broadcast_scheduler.py", "ipyparallel/controller/scheduler.py", CL],
 [("BroadcastScheduler.dispatch_submission/send_to_targets/coalescing_reply", "ipyparallel/controller/broadcast_scheduler.py"), ("client handling of combined replies", CL)],
 ["messages at engines and at the client"])

prop("C17", "A client's record of its messages matches what it sent and received",
 "For any interleaving of submissions, replies, output, engine departures and purges, every message the client submitted is outstanding until its reply arrives and finished afterwards, its history lists each submission once in order, and its results and metadata are those the engine sent. "
 "Waiting returns only when the messages waited for are done or the timeout passed, and says which. "
 "Purging local results forgets exactly the requested ones, and a failed or departed engine never leaves a waiter hanging.",
 ["histories","schedules","fault_sequences"],
 "Any interleaving of client operations with reply arrivals.",
 "Tests check isolated operations against a live cluster.",
 [CL, "ipyparallel/client/futures.py"],
 [("_handle_execute_reply/_handle_apply_reply/_handle_single_result", CL), ("_handle_stranded_msgs", CL), ("purge_local_results, result_status, wait, spin", CL)],
 ["client.outstanding, history, results, metadata, wait results"])

prop("C18", "Asynchronous results report readiness, values, errors and metadata faithfully",
 "An asynchronous result is ready exactly when all its parts have arrived, successful exactly when none of them failed, and its value is the engines' results in target order (unwrapped for a single target). "
 "Errors are raised as the original exception, or as one composite listing every failing part, or returned in place when requested; getting before completion times out without losing anything. "
 "Indexing, slicing, iteration, attribute and per-engine dictionary access agree with the value and with the metadata of the respective part.",
 ["histories","schedules","inputs"],
 "Any number of parts, arrival order, mixture of errors, and order of accesses, including while incomplete.",
 "Tests access results in a fixed order after natural completion.",
 [AR],
 [("AsyncResult.get/_resolve_output/ready/wait/__getitem__/get_dict/__iter__", AR), ("AsyncHubResult", AR)],
 ["public methods of asynchronous results"])

prop("C19", "Lazy parallel map is ordered, complete and bounded",
 "The lazy map yields the same values as the builtin map for any input iterables, in order when ordered and each exactly once otherwise. "
 "It never has more tasks outstanding than the limit, consumes the input no faster than needed to keep that many outstanding, and can be cancelled, after which it consumes nothing more. "
 "An element whose task fails raises that error to the consumer, or yields it when exceptions are requested as results, and an error of the input itself reaches the consumer after the elements before it. "
 "Executors of any view, which submit tasks and lazy maps, give the same values, and shutting one down returns once everything that was submitted is done, and not before.",
 ["schedules","inputs","configurations"],
 "Any finite or infinite input, limit, ordering, reply order, failing elements and cancellation point.",
 "Tests use fixed inputs and natural reply order.",
 [VW, AR],
 [("LoadBalancedView.imap", VW), ("AsyncMapResult iteration / cancel", AR)],
 ["values yielded, tasks outstanding, elements drawn from the input"])

prop("C20", "Target specifications select exactly the intended engines",
 "Every way of naming engines (an id, negative index, list, tuple, slice, 'all', or none) selects exactly the engines that indexing the sorted list of live ids would, in that order; an invalid specification raises an error, sends nothing and leaves nothing to wait for. "
 "Views created by indexing or by client methods target exactly those engines, and the flags of a view are temporarily changed and always restored by temporary-flag contexts, even on error; flags that are refused are not set.",
 ["inputs","histories"],
 "Any set of live ids (with gaps), any target specification, any nesting of flag changes.",
 "Tests use contiguous ids and a few specifications.",
 [CL, VW],
 [("_build_targets / __getitem__ / direct_view / load_balanced_view / broadcast_view", CL), ("temp_flags / set_flags / sync_results", VW)],
 ["targets of views and of messages sent"])

prop("C21", "Remote errors arrive complete, attributed and nested consistently",
 "An exception raised on an engine reaches the caller with its original type name, message, traceback text and originating engine, however it is packed and unpacked. "
 "A collection of results with failures raises a composite error that lists exactly the failures, in order, can be drilled into or re-raised individually, and nests rather than loses composite errors. "
 "A single failure from a single target is raised as itself.",
 ["inputs"],
 "Any exception types and messages (unicode, empty, unprintable), any mixture of values and errors, nesting of composites.",
 "Tests raise ZeroDivisionError and a few others.",
 ["ipyparallel/error.py"],
 [("wrap_exception / unwrap_exception / RemoteError / CompositeError / collect_exceptions", "ipyparallel/error.py")],
 ["exception objects at the client"])

prop("C22", "Engines execute requests faithfully and keep their namespace clean",
 "An engine that receives a call request replies exactly once, with the call's value or its error, for any function, arguments and buffers, and a function's assignments to globals are visible to later requests while the request's own temporary names never are. "
 "An unmet functional dependency is reported as such and distinguished from an error. "
 "Aborted requests are answered as aborted and never run, and requests not aborted are run.",
 ["histories","inputs"],
 "Any sequence of apply, abort and clear requests with any functions and arguments.",
 "Tests look at namespace hygiene only once and abort only in one order.",
 ["ipyparallel/engine/kernel.py"],
 [("apply_request / do_apply", "ipyparallel/engine/kernel.py"), ("abort_request / clear_request", "ipyparallel/engine/kernel.py")],
 ["replies on the shell stream; user namespace"])

prop("C23", "A cluster's saved description reproduces the cluster",
 "A cluster written to its file, or converted to a dictionary through JSON, and read back has the same identity, configuration, controller state and engine sets, for any state of the cluster. "
 "Listing clusters finds exactly those recorded in a profile, and a cluster removed or never started is not reported as running; state files belonging to other clusters are not touched.",
 ["histories","configurations"],
 "Any configuration values and any history of starting and stopping controllers and engine sets.",
 "Tests check one configuration.",
 ["ipyparallel/cluster/cluster.py", "ipyparallel/cluster/launcher.py"],
 [("Cluster.to_dict/from_dict/from_file/update_cluster_file", "ipyparallel/cluster/cluster.py"), ("launcher to_dict/from_dict", "ipyparallel/cluster/launcher.py"), ("ClusterManager.load_clusters", "ipyparallel/cluster/cluster.py")],
 ["cluster file contents and reconstructed cluster"])

prop("C24", "Shell commands sent to a remote host run exactly as given",
 "A command given as a string or list, with arguments containing spaces, quotes, or other special characters, is executed by the remote shell with exactly those arguments, and its output comes back unaltered. "
 "The file and process operations (create, check, remove, move, list, start, query and kill a process) do exactly what they say, to exactly the named target, with the environment and directory asked for.",
 ["inputs","programs"],
 "Any argument strings and paths; any sequence of file operations.",
 "Tests use a handful of plain arguments.",
 ["ipyparallel/cluster/shellcmd.py", "ipyparallel/cluster/shellcmd_receive.py"],
 [("ShellCommandSend", "ipyparallel/cluster/shellcmd.py"), ("ShellCommandReceive", "ipyparallel/cluster/shellcmd_receive.py")],
 ["argv and environment seen by the executed program; file system effects in a scratch directory"])

prop("C25", "Only correctly signed messages are acted upon",
 "A message whose signature does not match the cluster's key, or that was altered in any frame covered by the signature, is never acted upon by the hub, the schedulers or the client, and does not prevent them from serving later valid messages. "
 "A valid message is accepted.",
 ["inputs","histories"],
 "Any mutation (bit flips, truncation, dropped, duplicated or reordered frames, wrong key) of any message at any point of a history.",
 "Tests never send a forged message to a scheduler, hub or client.",
 ["ipyparallel/controller/hub.py", "ipyparallel/controller/task_scheduler.py", "ipyparallel/controller/scheduler.py", CL],
 [("session.unserialize calls in dispatchers", "hub.py, task_scheduler.py, scheduler.py, client.py")],
 ["state and outgoing messages after a forged message"])

prop("C26", "URL, host and port helpers are exact inverses and accept what they should",
 "Splitting a valid endpoint gives the protocol, address and port that joining puts back, validation accepts exactly well-formed endpoints, and disambiguation replaces wildcard hosts only, leaving everything else unchanged. "
 "Port range specifications expand to exactly the ports they name, in order, and consuming ports from a pool never yields the same port twice.",
 ["inputs"],
 "Any endpoint string (including malformed), any port range specification.",
 "Tests use two or three URLs.",
 ["ipyparallel/util.py", "ipyparallel/traitlets.py", "ipyparallel/controller/app.py"],
 [("split_url / validate_url / disambiguate_url / disambiguate_ip_address / is_ip", "ipyparallel/util.py"), ("PortList", "ipyparallel/traitlets.py")],
 ["return values and raised errors"])

prop("C27", "Output printed on engines is captured completely, in order and per task",
 "Everything a task prints to stdout and stderr, every display output and its final result reach the client under that task's metadata, complete, in order, never mixed with another task's, whatever the interleaving of output messages and replies. "
 "The result is not reported as complete-with-output before all its output has been received. "
 "What an execute returns shows exactly that result, its text and its display metadata, and can be copied and pickled.",
 ["schedules","histories"],
 "Any sequence and interleaving of stream, display, error, input and idle messages with replies, for several concurrent tasks.",
 "Tests print a few lines and rely on natural order.",
 [CL, AR, HUB],
 [("_dispatch_iopub", CL), ("AsyncResult._wait_for_outputs / wait_for_output / display_outputs", AR)],
 ["metadata stdout/stderr/outputs/execute_result; wait_for_output"])

prop("C28", "Batch job scripts contain exactly the requested settings",
 "The script a batch launcher writes contains the user's template with every placeholder replaced by its value, the queue, job-array and output directives if and only if they are configured and not already present, and the program arguments quoted so that the shell passes them unchanged. "
 "The job id the submit command prints is the one used to stop the job.",
 ["inputs","configurations"],
 "Any template, queue, number of engines, program arguments and submit output, for each supported batch system (including the job files of Windows HPC).",
 "Tests check few templates per launcher.",
 ["ipyparallel/cluster/launcher.py", "ipyparallel/cluster/_winhpcjob.py"],
 [("BatchSystemLauncher.write_batch_script / parse_job_id", "ipyparallel/cluster/launcher.py")],
 ["batch script contents, arguments of submit/delete commands"])

prop("C29", "Moving data and code to engines with a direct view has the advertised effect",
 "Whatever is pushed to engines can be pulled back equal from each of them; scattering a sequence and gathering it gives the sequence back; applying a function runs it exactly once on each target with exactly the given arguments; executed code runs once on each target in that engine's namespace. "
 "Imports under sync_imports bind the same names on the targeted engines as here, and the ordinary import is back afterwards. "
 "Results come back in the order of the targets regardless of the order in which engines answer, and blocking and non-blocking calls give the same values.",
 ["histories","inputs","schedules"],
 "Any sequence of push, pull, scatter, gather, apply, execute, import and namespace-dictionary operations, targets and reply orders.",
 "Tests do single operations with fixed values.",
 [VW, "ipyparallel/client/remotefunction.py", "ipyparallel/engine/kernel.py"],
 [("DirectView.push/pull/scatter/gather/execute/_really_apply/update/get/clear", VW)],
 ["engine namespaces and returned values"])

prop("C31", "Functional dependencies and decorators gate calls as declared",
 "A function with a functional dependency runs on an engine exactly when the dependency test holds there, and otherwise reports an unmet dependency without running; requirements that name modules or carry functions make those available under the right names before the call. "
 "Decorated remote and parallel functions return what the plain function returns.",
 ["inputs","programs"],
 "Any combination of dependency tests (true, false, raising), arguments, required modules and objects, and stacking of decorators.",
 "Tests check two or three fixed decorations.",
 ["ipyparallel/controller/dependency.py", "ipyparallel/client/remotefunction.py"],
 [("depend / dependent / require / _require", "ipyparallel/controller/dependency.py"), ("remote / parallel / sync_view_results", "ipyparallel/client/remotefunction.py")],
 ["whether and with which names and values the function ran"])

prop("C32", "The controller hands out consistent, collision-free connection endpoints",
 "For any transport, interface, port and broadcast-tree configuration, every socket the controller binds has its own distinct endpoint, and the connection information given to engines and clients names exactly the endpoints bound for them. "
 "Configured ports are used exactly as configured, and reloading written connection information reproduces the same endpoints and key.",
 ["configurations"],
 "Any combination of transport, ip, port-pool, per-service ports and tree depth.",
 "Tests start one or two configurations.",
 ["ipyparallel/controller/app.py"],
 [("IPController.init_hub / engine_info / client_info / _broadcast endpoints / load_config_from_json", "ipyparallel/controller/app.py")],
 ["engine and client connection dictionaries; URLs passed to the binding code"])

prop("C33", "A magic command runs exactly the user's code where it was aimed",
 "Code given to the parallel cell and line magics runs unchanged, once, on exactly the engines the magic's options select, and blocks, saves, groups or silences its result as its options ask. "
 "Options given for one command do not affect the following ones, and the sticky configuration and automatic mode apply to all following commands until switched off, with the original behaviour restored.",
 ["inputs","histories"],
 "Any code text and any sequence of magic invocations and options.",
 "Tests run each option once with trivial code.",
 ["ipyparallel/client/magics.py"],
 [("ParallelMagics.px / cell_px / pxconfig / autopx / interrupts", "ipyparallel/client/magics.py")],
 ["execute requests sent through the view, saved results"])

prop("C34", "Launchers control exactly the processes they started",
 "Starting a launcher starts exactly the requested number of processes, each with the configured command, arguments, environment, directory and (remote) host, user and port. "
 "Signals and stops reach exactly these; stopping returns only once they are gone; every exit is reported once with its exit code and, for a set, once after the last engine; "
 "output is retrieved and streamed complete. Waiting for connection information gives it once it is completely written, or an error once the controller died or the time is over. A launcher restored from its saved state controls the same processes.",
 ["inputs","histories","faults"],
 "Any configuration and any history of exits, signals, restores and stops.",
 "Tests start a few engines with one configuration and stop them.",
 ["ipyparallel/cluster/launcher.py"],
 [("LocalProcessLauncher / LocalEngineSetLauncher", "ipyparallel/cluster/launcher.py"), ("SSHLauncher / SSHEngineSetLauncher / SSHProxyEngineSetLauncher", "ipyparallel/cluster/launcher.py")],
 ["processes running, with arguments, environment and directory; files transferred; stop callbacks; output"])

prop("C35", "Engines join where told, and neither outlive the controller nor die unnoticed",
 "An engine registers once, with the identity and id it was told to use, connects every channel to the endpoint the connection information names (through the tunnel if one is asked for), and leaves with an error when refused or unanswered. "
 "It shuts down after, and only after, the configured number of consecutive missed heartbeats. Its nanny relays control messages both ways unchanged, delivers valid signal requests to the engine and answers each once, "
 "and reports the engine's death, however it dies, to the hub exactly once.",
 ["inputs","histories","faults","schedules"],
 "Any connection information, any sequence of control messages, any schedule of pings and any way to die at any time.",
 "Tests start engines with one configuration on one machine, and stop them orderly.",
 ["ipyparallel/engine/app.py","ipyparallel/engine/nanny.py"],
 [("IPEngine.register / complete_registration / start_heartbeat / _hb_monitor", "ipyparallel/engine/app.py"), ("KernelNanny / start_nanny", "ipyparallel/engine/nanny.py")],
 ["endpoints connected to, identities, registration and unregistration requests, signals received by the engine, frames relayed, exit"])

prop("C36", "Clusters and their server API tell launchers what is asked, and lose none",
"A Cluster gives its controller and engine launchers exactly the settings it has been given, and every engine set it starts stays known, by its id, with its size, until it has been stopped or has exited. "
"Stop, signal and restart reach exactly the launchers meant, once, even when one of them fails or calls overlap; a failure reaches the caller. The cluster file shows what is running. "
"Context managers and exit leave nothing running. The server extension does what requests say, and lists clusters as they are.",
["inputs","histories","faults","schedules"],
"Any history of calls, from any kind of caller, overlapping or not, with launchers failing at any step or exiting on their own.",
"Tests start a few real clusters and stop them in order; no launcher fails, and calls do not overlap.",
["ipyparallel/cluster/cluster.py","ipyparallel/_async.py","ipyparallel/nbextension/handlers.py"],
[("Cluster.start_controller / start_engines / stop_engines / stop_cluster / restart_engines / signal_engines / __enter__ / __exit__", "ipyparallel/cluster/cluster.py"), ("ClusterManager", "ipyparallel/cluster/cluster.py"), ("AsyncFirst", "ipyparallel/_async.py"), ("ClusterListHandler / ClusterActionHandler / ClusterHandler", "ipyparallel/nbextension/handlers.py")],
["calls launchers receive, cluster file, cluster.engines / controller, replies over HTTP, exceptions"])

prop("C37", "Forwarded log messages reach the log watcher with origin, level and text",
 "What a controller, a scheduler or an engine logs, at or above its own level, is forwarded once it is told to, and a log watcher that is subscribed to it logs it exactly once, in order for each sender, "
 "with the sender's topic (engines by their current id), the level it was logged at, and the formatted text with any traceback. What the watcher is not subscribed to it does not log, "
 "a change of topics takes effect, invalid messages do not stop it, and forwarding changes nothing in the sender.",
 ["inputs","histories"],
 "Any level, text, arguments and exceptions of log calls, any senders and topics, changes of ids and topics on the way.",
 "No test starts a log watcher or sets a log_url; levels, topics and texts are an unbounded space.",
 ["ipyparallel/apps/logwatcher.py","ipyparallel/engine/log.py","ipyparallel/engine/app.py","ipyparallel/controller/app.py","ipyparallel/util.py"],
 [("LogWatcher.subscribe / log_message / _extract_level", "ipyparallel/apps/logwatcher.py"), ("EnginePUBHandler", "ipyparallel/engine/log.py"), ("forward_logging", "ipyparallel/engine/app.py"), ("forward_logging", "ipyparallel/controller/app.py"), ("connect_logger", "ipyparallel/util.py")],
 ["what the watcher logs, level and text"])

prop("C38", "ipcluster commands act on the clusters they are told, completely, on no other",
 "`ipcluster start` starts one controller and the configured number of engines with the configured arguments, profile and cluster id, unless that cluster is running (exit 10). It ends, and leaves nothing running that can be stopped, when it is interrupted or terminated at any time, "
 "when the start fails (nonzero exit), when the controller exits, or the engines exit early; daemonized it ends and leaves all running. Signals are passed on to the engines. `engines` starts only engines, and leaves a running cluster's file alone. "
 "`stop` stops all of the clusters named (or all of the profile), even if stopping one fails (nonzero exit), and no other; it exits 11 if one is unknown. `list` shows each cluster with what is running of it. `clean` removes cluster, log and connection files of the profiles it is told, but not of running clusters unless forced. "
 "Cluster files tell what is running after every command.",
 ["inputs","histories","schedules"],
 "Any history of commands, options from command line, configuration and environment, launchers that fail, processes that exit, and signals at any point of a command.",
 "The tests of ipcluster start one cluster, list and stop it; failures, signals at particular moments, stale and several clusters are not among them.",
 ["ipyparallel/cluster/app.py","ipyparallel/cluster/cluster.py","ipyparallel/apps/baseapp.py","ipyparallel/cluster/launcher.py"],
 [("IPClusterStart / IPClusterEngines / IPClusterStop / IPClusterList / IPClusterClean", "ipyparallel/cluster/app.py"), ("Cluster.from_file / start_cluster / stop_cluster / update_cluster_file, clean_cluster_files", "ipyparallel/cluster/cluster.py"), ("BaseParallelApplication", "ipyparallel/apps/baseapp.py")],
 ["exit codes, standard output, calls launchers receive, cluster files and other files of the profiles"])

prop("C39", "Any client gets from the hub what happened to any client's tasks",
 "A client that asks the hub (`get_result`, `result_status`, `resubmit`, `hub_history`, `queue_status`, `db_query`, `purge_hub_results`) about tasks of any client gets each task's own outcome, with its metadata (engine, times, label, output, error), "
 "in the order asked for, whatever the mix of its own and others', finished and pending tasks. A result from the hub behaves like any AsyncResult: waiting, polling, iterating, its future's methods, progress, and times are right before and after the tasks are done, and nothing hangs or "
 "comes back before the tasks are done. Resubmitted tasks run anew under new ids with the old arguments; purged results are gone, others are not; status, queues, history and queries tell what the hub has seen at that moment.",
 ["inputs","histories","schedules"],
 "Any history of submissions by two clients, deliveries, engine deaths, late output, and of requests to the hub, with either database.",
 "The tests fetch a few results of one client from the hub after they are done.",
 ["ipyparallel/client/asyncresult.py","ipyparallel/client/client.py","ipyparallel/controller/hub.py"],
 [("AsyncHubResult", "ipyparallel/client/asyncresult.py"), ("Client._result_status / resubmit / hub_history / queue_status / db_query / purge_hub_results", "ipyparallel/client/client.py"), ("Hub.get_results / resubmit_task / db_query / queue_status / purge_results", "ipyparallel/controller/hub.py")],
 ["values and exceptions that results give, their metadata, replies to queries"])

prop("C40", "joblib.Parallel on a cluster gives what it gives locally",
 "With a view registered as a joblib backend, `Parallel(...)(tasks)` returns each task's value in the order of the tasks, or raises the error of one that failed (or of its input), for any batch size, dispatch limit, kind of input, number of calls, and order in which "
 "results arrive; each task runs once, on the view's engines only, and other work of the view is not disturbed; `n_jobs` is the number of the view's engines. The default backend connects to the running cluster, or starts one, as often as it is needed, "
 "and after every call leaves no client of its own connected and no cluster of its own running; a cluster that was running before is not stopped.",
 ["inputs","schedules","histories"],
 "Any tasks, parameters of Parallel, engines of the view, sequence of calls, order of delivery; any state of the default cluster.",
 "The tests run one call of ten tasks that do not fail.",
 ["ipyparallel/client/_joblib.py","ipyparallel/joblib.py","ipyparallel/client/view.py"],
 [("IPythonParallelBackend", "ipyparallel/client/_joblib.py"), ("View.register_joblib_backend", "ipyparallel/client/view.py")],
 ["results and errors of Parallel, where tasks ran, open clients, starts and stops of clusters"])

prop("C41", "Switching between pickle, dill and cloudpickle only changes what can be sent",
 "`use_dill`, `use_cloudpickle` and `use_pickle`, of views and of `ipyparallel.serialize`, may be called any number of times in any order, on either side, with messages in flight: whatever could be sent before can be sent then and behaves the same (functions, closures, classes, "
 "partials, arrays), and what is on its way is read in any mode. With dill or cloudpickle, methods, instances of local classes, recursive closures and functions nested in containers arrive too; `use_pickle` reverts everything, and then messages need nothing but pickle to be read "
 "and functions use the engine's globals. A view's method switches here first, then once on each of its engines.",
 ["inputs","histories"],
 "Any history of switches on both sides, sends and returns of objects, and messages in flight.",
 "The tests switch once and send one function.",
 ["ipyparallel/serialize/canning.py","ipyparallel/serialize/serialize.py","ipyparallel/client/view.py"],
 [("use_dill / use_cloudpickle / use_pickle", "ipyparallel/serialize/canning.py"), ("DirectView.use_dill / use_cloudpickle / use_pickle", "ipyparallel/client/view.py")],
 ["what the engine and the client get, and how it behaves when used"])

prop("C42", "Waiting for engines ends when they are there; shutdown ends exactly those asked",
 "`Client.wait_for_engines(n)` (blocking or not, any number of them at once, with or without progress bar and cluster) is over as soon as the client knows `n` engines, however their registrations fall together with the call, "
 "fails with EngineError if an engine leaves or an engine set of the cluster stops meanwhile, with TimeoutError when its time is over, can be cancelled, and leaves nothing behind; others that watch an engine set are told of its stop as well. "
 "`shutdown` of clients and views asks each targeted engine once, and no other; blocking, it returns after all have answered and raises if one refuses; with `hub=True` the hub ends after the engines have answered, and all clients are closed. "
 "No control request (`clear`, `abort`, `send_signal`, `shutdown`) or task waits for ever for an engine that dies: it ends with that engine's answer or an EngineError (a shutdown: as done), and other engines' refusals are raised.",
 ["histories","schedules","faults"],
 "Any history of waits, registrations (also while a wait begins), departures, stops, timeouts and cancellations; any shutdowns by any client with tasks under way.",
 "The tests wait for engines one wait at a time and hardly shut down anything.",
 ["ipyparallel/client/client.py","ipyparallel/client/view.py","ipyparallel/cluster/launcher.py","ipyparallel/controller/hub.py"],
 [("Client.wait_for_engines / shutdown", "ipyparallel/client/client.py"), ("DirectView.shutdown", "ipyparallel/client/view.py"), ("BaseLauncher.notify_stop", "ipyparallel/cluster/launcher.py"), ("Hub.shutdown_request", "ipyparallel/controller/hub.py")],
 ["when and how waits end, callbacks left, requests that engines and the hub get"])

prop("C43", "Comms of engines and the frontend of the client's kernel find each other",
 "In a kernel, what an engine does with its comms (widgets) while it works for a client - open, messages, close, with data, metadata and buffers - reaches the frontend of that client's kernel once, in order and unchanged, as part of the cell that runs there; "
 "what the frontend sends to such a comm, its close included, reaches exactly the engine that opened it, once, in order and unchanged. Messages of other clients' tasks are not relayed, nothing is without a kernel, and results are not disturbed.",
 ["histories","schedules","inputs"],
 "Any history of comms of several engines, with data, metadata and buffers, traffic in both directions and in any order of delivery.",
 "No test uses comms.",
 ["ipyparallel/client/client.py"],
 [("Client._dispatch_iopub", "ipyparallel/client/client.py"), ("Client._send", "ipyparallel/client/client.py")],
 ["comm messages that the frontend and the engines get"])

prop("C44", "Clients find, reach and leave the controller they are told of",
 "A client uses the connection file it is told of - by path, by content, or by profile, profile directory and cluster id, waiting for one that is not there yet no longer than it was told - and no other. "
 "It connects every channel to the address that file gives, as seen from this machine, through an ssh tunnel exactly if one is asked for or needed, with the curve keys and signatures of that file. "
 "Each kind of request goes out on its channel, and engines that come and go are noticed. A client that cannot connect, or is closed, leaves no sockets or threads behind.",
 ["inputs","configurations","histories"],
 "Any way to tell, any complete or incomplete file, addresses and location, names and addresses of this machine, ssh options, answers of the hub, and registrations afterwards.",
 "Tests connect on one machine with one kind of file, without ssh.",
 ["ipyparallel/client/client.py", "ipyparallel/util.py"],
 [("Client.__init__ / _connect / close", "ipyparallel/client/client.py"), ("disambiguate_ip_address", "ipyparallel/util.py")],
 ["addresses, options and tunnels of the sockets of a client, messages on them, and what is left after it is closed"])

prop("C45", "A cluster becomes a dask cluster and stops being one as asked",
 "`Client.become_dask` starts, at the controller, one dask scheduler with the scheduler arguments and the port it is given and, on each targeted engine, exactly one worker (or nanny) of that scheduler with the arguments it is given, "
 "and returns a dask client of that scheduler; asking again starts nothing twice, and adds workers on targeted engines that have none. A scheduler that cannot be started is reported and does not affect later requests. "
 "`Client.stop_dask` closes the workers of the targeted engines - and of no others - and removes their names from the engines' namespaces, unless the user bound them to something else, and closes the scheduler; afterwards it can begin again.",
 ["histories","inputs","faults"],
 "Any history of starting and stopping with any targets and arguments, failing schedulers, and engines that join and leave in between.",
 "The test needs a real dask, starts it once with default arguments, and does not look at what is left after stopping.",
 ["ipyparallel/client/client.py","ipyparallel/controller/hub.py","ipyparallel/util.py"],
 [("Client.become_dask / stop_dask", "ipyparallel/client/client.py"), ("Hub.become_dask / stop_distributed", "ipyparallel/controller/hub.py"), ("become_dask_worker / stop_distributed_worker", "ipyparallel/util.py")],
 ["schedulers, workers and clients started and closed, with their arguments; names in the engines' namespaces"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
