#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
X = "python/xoscar/"

p("P01", "Every remote call is executed once and answered with its own outcome",
  "A call on an actor reference is executed exactly once on exactly the addressed actor with exactly the given arguments, and its awaiter receives the value (or exception) of that very execution, however many calls share a connection and in whichever order replies arrive. This holds for calls between clients, main pools and sub pools, for calls routed through another pool, and for one-way calls (executed once, no result expected).",
  ["schedules"], "all interleavings of message deliveries with callbacks for small sets of concurrent calls, up to the deviation bound",
  "Replies can be reordered, coalesced and interleaved in a number of ways that grows with every concurrent call; tests see the one order the machine produced.",
  [X+"backends/core.py", X+"backends/context.py", X+"backends/pool.py", X+"core.pyx"],
  [("request table per connection and reply dispatch", X+"backends/core.py ActorCallerThreadLocal._listen / call_with_client"),
   ("message dispatch in pools", X+"backends/pool.py process_message, send, tell, forward")],
  "pending request tables; actor execution log", "return values / exceptions at the caller, execution log in actors")

p("P02", "A broken peer fails every affected call and nothing else",
  "When a pool process dies or a connection is closed or reset at any moment, every call that waits for an answer over it ends with an error that says the server was closed (or the connection failed) instead of waiting forever, and calls answered before that keep their own answers. Calls to other pools are unaffected, later calls to a dead address fail promptly, and a call never returns a value that the addressed actor did not compute for it.",
  ["crash_points", "schedules"], "every crash point of the callee process (at each step of the exchange), closed or reset, combined with delivery orders",
  "The outcome depends on the exact instant of the crash relative to request, execution and reply; a test kills a process at one instant.",
  [X+"backends/core.py", X+"backends/communication/socket.py", X+"backends/router.py", X+"backends/pool.py"],
  [("failure fan-out to pending calls", X+"backends/core.py ActorCallerThreadLocal._listen"),
   ("send failure handling", X+"backends/core.py call_with_client"),
   ("dropping closed cached connections", X+"backends/router.py get_client")],
  "pending calls per connection", "exceptions at callers")

p("P03", "Methods of a stateful actor never interleave; stateless and lock-free ones do",
  "Two ordinary methods of a stateful actor never run interleaved, whether called locally, remotely, one-way or in a batch: from start to return of a method body (across all its awaits) no body of another ordinary call or batch runs on that actor. Methods marked lock-free and methods of stateless actors are not held back by that exclusion, and the exclusion is given up whenever a body has ended by return, exception or cancellation, so later calls always proceed.",
  ["schedules"], "all interleavings, up to the deviation bound, of concurrent local, remote, one-way, batch and cancelled calls on one actor",
  "Mutual exclusion must hold for every interleaving of awaits, and releasing on every exit path incl. cancellation while waiting; tests exercise a few timings.",
  [X+"core.pyx", X+"batch.py"],
  [("actor lock around remote calls", X+"core.pyx _BaseActor.__on_receive__"), ("actor lock around local calls", X+"core.pyx __pyx_actor_method_wrapper")],
  "actor lock; set of running bodies", "enter/leave log written by actor bodies")

p("P04", "Messages of one sender are executed in the order they were sent",
  "If an actor (or a process hosting a pool) sends messages through one reference that names the receiver's own pool, each completed (for one-way sends: handed over) before the next is begun, the receiver starts executing them in that order, for any mix of one-way calls, awaited calls and batches of ordinary (non-generator) methods and for messages of any size, in the same pool, another process or another cluster. Messages begun in order without waiting in between keep their order as well, and so do those forwarded by a main pool, unless they are so large that they are serialised in another thread.",
  ["schedules", "inputs"], "all delivery schedules up to the bound, for every sequence over small alphabets of call kinds and message sizes",
  "Order violations need a particular timing between serialisation work, delivery and task start; tests rarely compare orders at all.",
  [X+"backends/communication/socket.py", X+"backends/pool.py", X+"core.pyx", X+"backends/context.py"],
  [("ordered writing", X+"backends/communication/socket.py SocketChannel.send"), ("one task per received message", X+"backends/pool.py on_new_channel"), ("local one-way calls", X+"core.pyx LocalActorRefMethod.tell")],
  None, "execution log of the actor")

p("P05", "A batch call equals the calls it bundles",
  "A batch of delayed calls returns one result per bundled call, in the order of the bundle, each equal to what the single call with those arguments would have returned, whether the method offers a batch implementation, a single one, or both, is synchronous or asynchronous, and whether the reference is local or remote. An empty batch gives an empty result, bundling different methods is refused, positional and keyword arguments arrive unchanged, and argument binding follows the method's signature exactly.",
  ["inputs", "configurations"], "all small batches over method kinds (single/batch/both, sync/async, with or without keywords, failing members) on local and remote references",
  "The paths (0, 1, many entries; keywords or none; fallbacks after 'not implemented') multiply; tests pick a few combinations.",
  [X+"batch.py", X+"core.pyx"],
  [("extensible methods", X+"batch.py _ExtensibleWrapper, _ExtensibleAccessor, build_args_binder"), ("batch messages", X+"core.pyx ActorRefMethod.batch, __on_receive__")])

p("P06", "Cancelling or timing out a call ends it and disturbs nothing else",
  "When the task awaiting an actor call is cancelled or a timed wait expires at any moment, the awaiter always comes to an end (cancelled, or with the result if the call had already completed; a timed wait ends at its deadline even if the remote side never answers), the callee's method receives a cancellation if it is still running or queued, and no other call is cancelled. Afterwards the actor and the connection keep serving calls with correct results.",
  ["schedules"], "cancellation injected at every step of a call's life, for running, queued, finished, nested and redirected calls, with delivery orders up to the bound",
  "The cancel request races with the reply and with the execution; each race window is a few callbacks wide.",
  [X+"backends/context.py", X+"backends/pool.py", X+"api.py", X+"core.pyx"],
  [("cancel request to the callee", X+"backends/context.py _wait, cancel"), ("cancelling running work", X+"backends/pool.py ActorPoolBase.cancel, _run_coro"), ("timed wait", X+"api.py wait_for")])

p("P07", "Errors reach exactly the caller they belong to, with type and message",
  "If an actor method, constructor or lifecycle hook raises, the caller gets an exception that is an instance of the raised type with its message and attributes and that names the pool it came from, for any exception type, including ones with unusual constructors and nested causes; a cancellation raised inside arrives as cancellation. If arguments, results or exceptions cannot be serialised or deserialised, only the call concerned fails, with an error that says so, and the connection keeps working.",
  ["inputs", "schedules"], "a catalogue of exception classes and unserialisable values placed at each position (argument, result, exception, nested forwarding) combined with concurrent innocent calls",
  "The product of exception shapes, positions and hops is far larger than the handful of cases in tests.",
  [X+"backends/message.pyx", X+"backends/pool.py", X+"backends/core.py", X+"serialization/exception.py"],
  [("error messages", X+"backends/message.pyx ErrorMessage.as_instanceof_cause"), ("resending failures", X+"backends/pool.py _send_channel"), ("deserialisation failures", X+"backends/message.pyx DeserializeMessageFailed; backends/core.py _listen")])

p("P08", "Yielding actor methods give up exclusion only at yields and get the right values",
  "A method written as an asynchronous generator runs its code between yields under the actor's exclusion and gives the exclusion up while a yielded awaitable is pending; each yield evaluates to the result of what was yielded (single awaitable, tuple of awaitables and plain values, nested generator) or raises its exception at the yield. The caller receives the explicitly returned value, results of a returned tuple of awaitables stay in their positions whatever order they finish in, and cancellation or failure of one leaves the actor usable.",
  ["schedules", "programs"], "all small generator/tuple shapes over completing, failing and nested members, all completion orders",
  "Results depend on the completion order of concurrent members; tests use one order per shape.",
  [X+"core.pyx"],
  [("awaiting results outside the lock", X+"core.pyx _handle_actor_result"), ("driving generators", X+"core.pyx _run_actor_async_generator")])

p("P09", "Iterating a remote generator equals iterating it locally",
  "Iterating over a generator returned by an actor (plain or asynchronous, passed on to other actors or not) yields exactly the values that local iteration would yield, once each and in order, then ends; an error raised by the generator surfaces at the same position as an error and is never taken for the end. After the end, an error or disposal, the actor holds no state for it, and iterators do not influence each other or other calls.",
  ["programs", "schedules"], "all generator bodies up to a small length over value/None/exception steps, one or more interleaved consumers, disposal at each point",
  "Which step ends, fails or is abandoned is an open-ended choice; tests use a couple of generators.",
  [X+"api.py"],
  [("iterator wrapper", X+"api.py IteratorWrapper"), ("generator registry in the actor", X+"api.py AsyncActorMixin.__xoscar_next__, __xoscar_destroy_generator__")])

p("P10", "Actor creation, lookup and destruction follow a simple registry",
  "For every history of create, look-up, existence test, call and destroy operations over pools of one cluster, results agree with a plain map from (pool, name) to actor: a created actor exists and is reachable at the pool it was placed in and through its main pool, a second actor of that name on the same pool is refused without disturbing the first, and after destruction (or a failing constructor) it is gone everywhere and the name can be used again. Operations on unknown actors fail with the not-exist error.",
  ["histories"], "all operation histories up to a bounded length over two names, main and sub pools, failing constructors and hooks, via main or sub pool addresses",
  "Main and sub pools hold separate tables that must agree after every history; tests run a few fixed sequences.",
  [X+"backends/pool.py", X+"backends/context.py", X+"core.pyx"],
  [("tables in sub pools", X+"backends/pool.py ActorPoolBase, SubActorPoolBase"), ("table of allocated actors in the main pool", X+"backends/pool.py MainActorPoolBase")],
  "actor tables of main and sub pools")

p("P11", "Concurrent creation and destruction leave consistent registries",
  "When several clients concurrently create, look up, call and destroy actors, every operation ends, at most one of the concurrent creations of one name on one pool succeeds, every destroyed actor is gone and every surviving one is reachable. Once all operations have ended, the main pool's and the sub pools' views of which actors exist are equal.",
  ["schedules"], "all interleavings up to the bound of two or three concurrent lifecycle operations on colliding names",
  "The windows between the main pool's table and the sub pool's table are only open during in-flight messages.",
  [X+"backends/pool.py"],
  [("allocation placeholder and table updates around forwarded messages", X+"backends/pool.py MainActorPoolBase.create_actor, destroy_actor")])

p("P12", "Allocation strategies place actors where they promise",
  "An actor created with a placement strategy lands on a pool that the strategy admits: the given address, the main pool, the n-th process, a pool with the given label, or any (sub) pool for random placement. With the idle-slot strategy two live actors with the same label and mark never share a pool, even when created concurrently or when other creations run or fail in between; a slot is free again after its actor is destroyed, and creation fails with the no-idle-slot error exactly when all slots are taken.",
  ["histories", "schedules", "configurations"], "all histories up to a bound of creations/destructions with every strategy over small labelled clusters, plus interleavings of concurrent creations",
  "Placement depends on the whole history and on in-flight creations.",
  [X+"backends/allocate_strategy.py", X+"backends/pool.py", X+"backends/config.py"],
  [("strategies", X+"backends/allocate_strategy.py"), ("placeholders for in-flight creations", X+"backends/pool.py MainActorPoolBase.create_actor")])

p("P13", "A dead sub pool is detected and recovered as configured",
  "When a sub pool process dies at any moment, the main pool notices, reports it, and, if recovery is enabled, restarts it at the same address and reports that; with actor recovery exactly the actors that existed there exist again (with their original arguments), with process recovery or none they are forgotten. Everyone waiting for the recovery is woken once it is complete and never waits forever, and further deaths, of this or other sub pools, are handled the same way.",
  ["crash_points", "schedules"], "every crash point relative to creations, destructions, calls and waits, for each recovery mode, repeated deaths included",
  "Recovery interleaves with user operations over seconds of wall time; tests kill once in a quiet state.",
  [X+"backends/pool.py", X+"backends/indigen/pool.py"],
  [("monitor loop", X+"backends/pool.py monitor_sub_pools, process_sub_pool_lost"), ("recovering", X+"backends/indigen/pool.py recover_sub_pool"), ("waiting for recovery", X+"backends/pool.py handle_control_command")])

p("P14", "Growing and shrinking a pool keeps every process's view consistent",
  "After any history of adding and removing sub pools (also concurrently with calls), the main pool and all live sub pools agree on the configuration: addresses, labels, internal addresses and process indices of exactly the live pools, in order. New sub pools are usable for placement and calls from every process at once, removed ones are stopped and no longer used, and remaining actors keep working.",
  ["histories", "schedules"], "all add/remove histories up to a bound with explicit and default addresses, labels and modules, with concurrent calls",
  "The configuration object is mutated and broadcast in steps; only some orders of operations expose stale views.",
  [X+"backends/config.py", X+"backends/indigen/pool.py", X+"backends/pool.py", X+"backends/router.py"],
  [("configuration updates", X+"backends/config.py"), ("append/remove", X+"backends/indigen/pool.py append_sub_pool, remove_sub_pool"), ("sync to sub pools", X+"backends/pool.py handle_control_command, _sync_pool_config")])

p("P15", "Stopping a pool ends it completely and everyone waiting on it",
  "Stopping a main pool at any moment, with calls in flight or sub pools busy, hung or already dead, finishes within a bounded time, leaves no sub pool process alive, closes its listening endpoints and connections, and wakes everyone who waits for the pool to end. Calls in flight end with an answer or an error, and killing an actor ends exactly the process that hosts it.",
  ["schedules", "crash_points"], "stop injected at every step of small workloads with responsive, hung and dead sub pools",
  "Shutdown paths depend on which peers still answer; tests stop idle pools.",
  [X+"backends/pool.py", X+"backends/indigen/pool.py", X+"backends/context.py", X+"backends/communication/socket.py", X+"backends/communication/dummy.py"],
  [("stop", X+"backends/pool.py MainActorPoolBase.stop, stop_sub_pool"), ("killing processes", X+"backends/indigen/pool.py kill_sub_pool")])

p("P16", "Messages reach the addressed pool through internal addresses and proxies",
  "Whatever mapping of external to internal addresses and whatever acyclic proxy configuration (exact address, host or wildcard, chains of proxies) is in force, a message for an address is processed by the pool listening at that address, exactly once, and its answer returns to the sender; references handed out carry the proxies needed to be used from elsewhere. Registering and removing pools' routes in any order leaves exactly the routes of the remaining pools, and a closed cached connection is never used again.",
  ["configurations", "histories"], "all small mapping and proxy configurations and all short histories of route registration, removal, connection and disconnection",
  "Routing is decided by overlapping tables; only particular overlaps pick a wrong connection.",
  [X+"backends/router.py", X+"backends/core.py", X+"backends/pool.py"],
  [("address resolution and proxies", X+"backends/router.py get_client, get_proxy, get_proxies"), ("forwarding", X+"backends/core.py call; backends/pool.py forward")])

p("P17", "Serialization restores every object graph exactly",
  "Deserialising what was serialised gives an object equal in type, value and structure to the original: nested containers and scalars of every size, user objects, named tuples and container subclasses, with shared and cyclic references among containers and their elements restored as sharing (objects pickled as a whole keep the sharing inside them). The result does not depend on when the serialiser hands work to other threads, nor on buffers being passed as different byte types, and a serialised form stays decodable after other objects were serialised.",
  ["inputs"], "all object graphs up to a bounded number of nodes over the supported node kinds, with all aliasing patterns, under every hand-over threshold",
  "Identity bookkeeping fails only for particular aliasing patterns, which hand-written examples do not cover.",
  [X+"serialization/core.pyx", X+"serialization/pyfury.py", X+"serialization/exception.py"],
  [("context of already serialised objects and placeholders", X+"serialization/core.pyx _serial_single, serialize, deserialize"), ("container and primitive serialisers", X+"serialization/core.pyx")])

p("P18", "Arrays, tensors and tables survive serialization in every layout",
  "Numeric arrays, sparse matrices, tensors and tables of every supported element type, shape (including empty and zero-dimensional), memory layout (C, Fortran, sliced, reversed, broadcast, read-only) and flag set come back with equal values, shape, element type and layout kind where documented, and remain independent of the sender's memory. Unsupported kinds fall back to generic serialisation with an equal value rather than to wrong data.",
  ["inputs"], "all combinations of element types, shapes up to rank 3 and small extents, and layout operations",
  "Layout handling has a separate branch per flag combination; tests use contiguous arrays mostly.",
  [X+"serialization/numpy.py", X+"serialization/torch.py", X+"serialization/scipy.py", X+"serialization/core.pyx"],
  [("array serialiser", X+"serialization/numpy.py"), ("tensor serialiser", X+"serialization/torch.py"), ("sparse serialiser", X+"serialization/scipy.py")])

p("P19", "Byte streams are reassembled into exactly the messages sent",
  "However the bytes of a connection are cut into pieces on arrival, the receiver gets exactly the sent messages in sending order, including empty and large buffers and concurrently sent messages. If the stream ends or breaks at any byte, every message whose bytes arrived completely is delivered and the reader then gets an end-of-stream or connection error, never a damaged message and never an endless wait; bytes with a foreign header are refused.",
  ["inputs", "crash_points", "schedules"], "every cut and every truncation point of short message streams, all pairs of cut points, concurrent senders, for socket, unix socket and in-process channels",
  "TCP may cut anywhere; tests over loopback see whole messages almost always.",
  [X+"serialization/aio.py", X+"backends/communication/utils.py", X+"backends/communication/socket.py", X+"backends/communication/dummy.py"],
  [("framing", X+"serialization/aio.py AioSerializer, AioDeserializer"), ("buffers on the wire", X+"backends/communication/utils.py write_buffers, read_buffers"), ("channels", X+"backends/communication/socket.py SocketChannel")])

p("P20", "Every protocol message survives the wire unchanged",
  "Each kind of message exchanged between pools (creation, destruction, existence, reference, call, one-way call, cancellation, control, forwarding, results, errors, copies) is restored at the receiver with all its fields equal, for every combination of optional fields, also when nested in forwarding messages. A message whose content cannot be restored is reported with the identity of that message so that only its own call fails.",
  ["inputs"], "all message kinds with all combinations of optional fields over small value domains, nested up to three levels, and failures at each content position",
  "Messages are packed positionally with optional tails; an off-by-one only shows for particular combinations.",
  [X+"backends/message.pyx"],
  [("member packing", X+"backends/message.pyx serial_members/deserial_members"), ("message serializer", X+"backends/message.pyx MessageSerializer")])

p("P21", "Copying to remote buffers and files transfers exactly the source bytes",
  "Copying local buffers (or file objects) to remote ones leaves every remote buffer (file) holding exactly the bytes of its local counterpart, at the right offsets and in the right order, for every number and size of buffers, including empty ones, and every block size; bytes beyond the source length are untouched. Several copies and calls may run concurrently, and a copy reports success only if the data arrived: if the remote buffer is gone or the transfer fails, the caller gets an error.",
  ["inputs", "schedules"], "all vectors of up to three or four buffers over small sizes around the block size, for every small block size, buffers and files, plus fault injection at each transfer message",
  "Block splitting has boundary cases for every relation between sizes and block size.",
  [X+"backends/context.py", X+"backends/pool.py", X+"context.pyx", X+"core.pyx"],
  [("splitting into blocks", X+"backends/context.py copy_to_buffers, copy_to_fileobjs"), ("storing blocks", X+"backends/pool.py handle_copy_to_buffers_message, handle_copy_to_fileobjs_message"), ("argument checks", X+"context.pyx copy_to")])

p("P22", "Starting a sub process hands over complete parameters and results",
  "During the start of a sub pool process the parent and the child exchange parameters and result through shared memory such that, for every interleaving of the individual memory writes and reads, a reader gets either nothing yet or the complete object the other side wrote, never a torn or foreign one, and oversized objects are refused without being published. If the child ends before publishing, the parent reports the failure instead of waiting forever, and the shared memory is released in every case.",
  ["schedules", "crash_points"], "all interleavings of the elementary writes with a reader at every point, all object sizes around the limit, child death at every step",
  "The torn states exist for nanoseconds; tests never observe them.",
  [X+"backends/indigen/pool.py", X+"backends/indigen/shared_memory.py"],
  [("publication order", X+"backends/indigen/pool.py _shm_put_object, _shm_get_object"), ("waiting for the child", X+"backends/indigen/pool.py _create_sub_pool_from_parent")])

p("P23", "The asynchronous LRU cache agrees with a sequential LRU model",
  "A cached coroutine function returns for equal arguments the result of one earlier or current computation for those arguments, never another key's; concurrent calls with equal arguments share one computation, at most the configured number of entries is kept with the least recently used dropped first, failures are kept or retried as configured, and hit/miss counts match. Cancelling one waiter neither cancels the computation nor disturbs other waiters; invalidation, clearing and closing take effect as documented.",
  ["histories", "schedules"], "all operation histories up to a bound over three keys with completions, failures and cancellations in every order, for several capacities and options",
  "Eviction, in-flight sharing and cancellation interact; tests check each alone.",
  [X+"aio/lru.py"], [("cache", X+"aio/lru.py alru_cache and helpers")])

p("P24", "Metrics and profiling report what was recorded",
  "For every sequence of recorded values and tags, counters report the running total, gauges the last value, meters the rate over the interval, histograms the mean of the interval, and percentile reporters call back once per full window with the right order statistic of exactly that window, identically whether a metric was created before or after initialisation and for each backend. Profiling keeps exactly the slowest calls with their true durations, and the number of calls of each method.",
  ["histories", "inputs"], "all value sequences up to a bound with clock steps around the thresholds; all permutations of call durations",
  "Window and threshold boundaries depend on whole sequences and the clock.",
  [X+"metrics/api.py", X+"metrics/backends/metric.py", X+"metrics/backends/console/console_metric.py", X+"metrics/backends/prometheus/prometheus_metric.py", X+"profiling.py"],
  [("percentile window", X+"metrics/api.py Percentile"), ("aggregation", X+"metrics/backends/metric.py"), ("slow call statistics", X+"profiling.py")])

p("P25", "Debug mode observes without changing behaviour and finds call cycles",
  "Switching debug options on or off changes no result, error, order or placement of any call. With cycle reporting on, a warning is reported for a call exactly when the called actor is already waiting in the same chain of calls, across pools and forwarding, where an actor waits as long as its method runs, but not for what the method has yielded or returned. Calls, locks and messages that exceed their configured time and errors of methods are reported as configured and no others.",
  ["configurations", "programs"], "all call graphs over up to three actors and small call trees, for every combination of debug options, compared with the run without debug",
  "Trace propagation depends on the shape of the call graph and on concurrent calls sharing a task context.",
  [X+"debug.py", X+"core.pyx", X+"backends/pool.py", X+"backends/context.py"],
  [("trace recording", X+"debug.py record_message_trace, detect_cycle_send"), ("timeout reports", X+"debug.py debug_async_timeout")])

p("P26", "Virtual-environment requests resolve to exactly the right packages",
  "Given a list of requirement strings with platform and engine markers, system-package placeholders and installed packages, exactly the requirements whose markers hold for the given environment are installed, with names, extras, version specifiers and order preserved and the markers evaluated by standard boolean and version semantics; with skipping enabled, packages already present in a satisfying version are skipped and only those, and options (index, sources, flags) are passed on unchanged. Malformed or hostile marker expressions are refused, never executed.",
  ["inputs"], "all marker expressions up to a bounded depth over the supported variables, operators and values, and all combinations of requirement forms and installed versions",
  "Marker evaluation is a small interpreter; tests check a dozen strings.",
  [X+"virtualenv/core.py", X+"virtualenv/uv.py", X+"virtualenv/utils.py", X+"virtualenv/platform.py"],
  [("marker evaluation and filtering", X+"virtualenv/core.py, virtualenv/platform.py"), ("skip installed and command line", X+"virtualenv/uv.py")])

p("P27", "Type-based dispatch picks the most specific registered handler",
  "For every history of registering, unregistering and looking up handlers, a look-up returns the handler registered for the type itself or else for its nearest registered base in method resolution order, independent of which look-ups happened before; named variants and lazily named types behave the same as if registered with the real type once it is importable. A type without any registered base is refused.",
  ["histories"], "all short histories of register/unregister/look-up over a small class hierarchy with multiple inheritance, names and lazy types",
  "Look-ups are cached; only particular orders make the cache stale.",
  [X+"_utils.pyx"], [("dispatcher with caches", X+"_utils.pyx TypeDispatcher")])

p("P28", "Addresses, sizes and helper wrappers are interpreted consistently",
  "When a client creates an actor or looks one up in a pool that listens on a wildcard address, the returned reference names the host the client connected to instead, and only wildcard addresses are replaced, for IPv4 and IPv6 notations with ports and schemes preserved; such references serve for calls, cancellation, destruction and control like any other; human-readable sizes parse to the exact number; retried callables are invoked up to the limit until success and surface the last error otherwise, synchronously and asynchronously alike. Wrapped exceptions keep type checks, attributes and text of the original and the type checks and attributes of the added type.",
  ["inputs"], "all address forms over small host/port alphabets, all unit spellings and magnitudes, all success/failure patterns up to the retry limit",
  "String forms and failure patterns multiply; tests check a few each.",
  [X+"utils.py", X+"backends/context.py"],
  [("wildcard repair", X+"utils.py fix_all_zero_ip, is_zero_ip"), ("size parsing", X+"utils.py parse_readable_size"), ("retry", X+"utils.py retry_callable"), ("exception wrapping", X+"utils.py wrap_exception")])

p("P29", "Actor calls from several threads stay separate and correct",
  "When several threads of one process, each with its own event loop, concurrently call actors that live in other processes, every call is answered in the thread and loop that issued it, with its own result, and one thread's ending, failing or cancelling neither loses nor cancels another thread's calls; the same holds while a pool is started or stopped in that process. A thread can end while calls of its are pending (they end with an error then), and the connections opened by a finished thread are closed, at the latest when garbage is collected.",
  ["schedules"], "all interleavings up to the bound of the event-loop steps of two threads sharing routers, callers and references",
  "Sharing a connection between loops fails only under particular interleavings of the two loops.",
  [X+"backends/core.py", X+"backends/router.py", X+"backends/context.py"],
  [("per-thread callers", X+"backends/core.py ActorCaller"), ("per-thread connection cache", X+"backends/router.py Router._cache, _lock")])

p("P30", "A sub pool never outlives its main pool",
  "When the main process of a cluster disappears at any moment and in any way, each of its sub pools notices within a bounded time and ends, whatever it is doing, and as long as the main process and the thread that started it live no sub pool ends by itself. Errors of the process table look-up are not taken for the death of the main process.",
  ["crash_points", "schedules"], "main process death at every step of a sub pool's watch loop and workload, with every possible answer of the process table",
  "The watch loop races with the pool's own stop and with failing look-ups.",
  [X+"backends/pool.py", X+"backends/indigen/pool.py", X+"backends/indigen/fate_sharing.py"],
  [("watching the main process", X+"backends/pool.py SubActorPoolBase._watch_main_pool")])

p("P31", "Collective groups agree on ranks, names and membership",
  "When processes set up collective communication, every member ends up with the rank and world size implied by its arguments, groups created with equal member lists get equal names and ranks on all members and different groups different ones, and each operation is carried out on exactly the group it names with the caller's own data. Non-members of a group are refused, and destroying a group affects only that group.",
  ["configurations", "histories"], "all small worlds, member lists and operation histories",
  "Needs the native collective library, which cannot be built here.",
  [X+"collective/core.py", X+"collective/process_group.py", X+"collective/utils.py"],
  [("groups", X+"collective/core.py"), ("operations", X+"collective/process_group.py")])

p("P32", "Asynchronous file and event wrappers mirror the wrapped object",
  "Every operation on an asynchronous file or event wrapper has the effect and result (or error) of the same operation on the wrapped object, in the order issued (for operations awaited one after another), without blocking the event loop; iteration yields the same lines and the context manager closes the file. Wrapping a wrapper behaves as wrapping the inner object.",
  ["histories"], "all operation histories up to a bound over small files and events, compared with direct use",
  "Each delegated operation must match for every state of the file.",
  [X+"aio/base.py", X+"aio/file.py", X+"aio/parallelism.py"], [("delegation", X+"aio/base.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
