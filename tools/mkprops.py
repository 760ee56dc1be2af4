#!/usr/bin/env python3
"""Generates properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Every emission runs every listening reaction exactly once with its own data",
  "Each message emitted locally while the system runs causes every reaction that is bound to its type, enabled and not limited by a drop policy to run exactly once, with exactly the message object that was emitted (the same object for all listeners, unchanged). No run happens without such an emission. This holds for messages emitted from any thread, from inside other reactions and in bursts of any size.",
  ["schedules", "programs"], "all reactor programs (reactions, pools, groups, cascading emissions) and all thread interleavings of the emitting and executing threads",
  "Unit tests emit a handful of messages from one thread on one natural interleaving; loss, duplication or mixing of payloads needs a specific interleaving of emitters, pool workers and group release, or bursts that cross internal block boundaries.",
  ["src/dsl/word/emit/Local.hpp", "src/dsl/operation/CacheGet.hpp", "src/util/CallbackGenerator.hpp", "src/threading/scheduler/Scheduler.cpp", "src/threading/scheduler/Pool.cpp", "src/threading/scheduler/Group.cpp"],
  [("emit to task creation", "src/dsl/word/emit/Local.hpp, src/util/CallbackGenerator.hpp"), ("submit and dispatch", "src/threading/scheduler/Scheduler.cpp submit, Pool.cpp get_task")],
  observe="the run log of user callbacks (reaction, message identity) against the log of emissions")

prop("P02", "Reaction arguments follow the documented data model",
  "A reaction that runs receives the emission that triggered it, the latest previously stored value of every other message type it asks for (a null pointer if optional and never emitted), and for a last-N request the newest at most N values present when it was triggered, oldest first. A trigger for which a required value does not exist yet causes no run. A message becomes the latest value of its type once its own emission has been handed to all its listeners.",
  ["histories", "inputs"], "all histories of emissions over several message types, all combinations of required, optional and last-N arguments, and any emission scope",
  "Tests check a few fixed sequences of emissions; the argument values depend on the whole emission history and on the window size, so off-by-one, stale or missing values appear only in particular histories.",
  ["src/dsl/operation/CacheGet.hpp", "src/dsl/word/Last.hpp", "src/dsl/word/Optional.hpp", "src/dsl/word/With.hpp", "src/dsl/word/Trigger.hpp", "src/util/CallbackGenerator.hpp", "src/util/MergeTransient.hpp", "src/util/TypeMap.hpp"],
  [("argument lookup", "src/dsl/operation/CacheGet.hpp get"), ("missing data drop and window merge", "src/util/CallbackGenerator.hpp"), ("last N", "src/dsl/word/Last.hpp")],
  state=[("latest value per type", "the most recently completed emission of the type"), ("last-N window", "per reaction list of values seen at its triggers")])

prop("P03", "Inline and queued execution follow the emission scope and the reaction's choice",
  "With an inline emission every listening reaction that does not refuse inlining and whose groups are free runs to completion on the emitting thread before the emission returns, at any point of the system's life; reactions that always inline do so for any local emission; reactions that never inline always run on their own pool. A reaction that both always and never inlines is rejected. An ordinary emission never runs an ordinary reaction on the emitting call.",
  ["programs", "histories"], "all combinations of emission scope, inline preference, pool, group occupancy and lifecycle phase, nested to any depth",
  "Tests cover single-level combinations on an idle system; nesting, occupied groups and phases before start or during shutdown multiply the combinations.",
  ["src/dsl/word/Inline.hpp", "src/dsl/fusion/InlineFusion.hpp", "src/dsl/word/emit/Inline.hpp", "src/threading/ReactionTask.cpp", "src/threading/scheduler/Scheduler.cpp"],
  [("inline decision", "src/threading/ReactionTask.cpp constructor"), ("inline dispatch", "src/threading/scheduler/Scheduler.cpp submit")])

prop("P04", "A group never runs more tasks at once than its concurrency",
  "At every instant, under every interleaving, the number of running reactions that belong to a group is at most the group's concurrency (one for a sync group), whichever pools or threads they run on and whether they were queued or run inline. A reaction in several groups holds a slot in each of them for as long as it runs.",
  ["schedules", "programs"], "all interleavings of submissions, completions and inline runs, for any number of groups, group sizes, pools and priorities",
  "Mutual exclusion failures need two threads to pass the same few instructions at the same time; the tests run each program on whatever interleaving the OS happens to give.",
  ["src/threading/scheduler/Group.cpp", "src/threading/scheduler/Group.hpp", "src/threading/scheduler/CombinedLock.cpp", "src/threading/scheduler/Scheduler.cpp", "src/dsl/word/Group.hpp", "src/dsl/word/Sync.hpp"],
  [("token acquire and release", "src/threading/scheduler/Group.cpp"), ("several groups", "src/threading/scheduler/CombinedLock.cpp")],
  state=[("tokens", "free slots of the group")])

prop("P05", "No runnable task is ever stranded and the system never deadlocks",
  "Whenever the system comes to rest, no submitted task is still waiting although its groups have free slots and its pool has a free thread: every accepted task has run. Under every interleaving of submission, completion, parking for a group and sleeping of pool threads, no thread waits forever and a requested shutdown completes.",
  ["schedules", "programs"], "all interleavings, for programs mixing pools, single and multiple groups, inline runs, priorities and cascades",
  "A lost wakeup needs one exact ordering of a few operations in two threads; tests that pass by luck or by a later unrelated wakeup do not see it.",
  ["src/threading/scheduler/Pool.cpp", "src/threading/scheduler/Group.cpp", "src/threading/scheduler/Scheduler.cpp", "src/threading/scheduler/CombinedLock.cpp"],
  [("sleep and wake of workers", "src/threading/scheduler/Pool.cpp get_task, submit, notify"), ("parking and hand over of waiters", "src/threading/scheduler/Group.cpp park, drain, release")])

prop("P06", "Tasks run only on the threads of their own pool",
  "A queued task runs on a thread of the pool its reaction names (the default pool if none), a pool never uses more threads than its concurrency and can use all of them at once, and different pools never share a thread. Main-thread reactions run on the thread that started the system, and each continuously running reaction has a thread of its own on which it runs one instance at a time, again and again until shutdown.",
  ["schedules", "configurations"], "all interleavings and all configurations of default pool size, named pools and their sizes, main thread and continuously running reactions",
  "Tests look at one or two pools in a fixed configuration; placement errors show up for particular combinations of pool kinds, lazy creation and load.",
  ["src/threading/scheduler/Pool.cpp", "src/threading/scheduler/Scheduler.cpp", "src/dsl/word/Pool.hpp", "src/dsl/word/MainThread.hpp", "src/dsl/word/Always.hpp", "src/dsl/fusion/PoolFusion.hpp"],
  [("thread creation", "src/threading/scheduler/Pool.cpp start"), ("pool selection", "src/threading/scheduler/Scheduler.cpp get_pool, submit")])

prop("P07", "Waiting tasks start in priority order, first come first served within a level",
  "When a thread of a pool becomes free it starts a waiting runnable task of the highest priority level present, and among tasks of one level queued by one thread the one queued first. Tasks waiting for a busy group obtain its slot in the same order. If several words give a reaction a priority, the highest applies.",
  ["histories", "programs"], "all sequences of queued tasks over all priority levels, burst sizes and group occupancies",
  "Tests queue a handful of tasks; ordering errors hide at level boundaries, in long queues and in the hand-over of group slots.",
  ["src/threading/scheduler/queue/Priority.hpp", "src/threading/scheduler/Pool.cpp", "src/threading/scheduler/Group.cpp", "src/threading/scheduler/queue/MPSCQueue.hpp", "src/threading/scheduler/queue/TaskQueue.hpp", "src/dsl/fusion/PriorityFusion.hpp"],
  [("priority levels", "src/threading/scheduler/queue/Priority.hpp"), ("dequeue scan", "src/threading/scheduler/Pool.cpp try_dequeue_task"), ("waiter order", "src/threading/scheduler/Group.cpp")])

prop("P08", "Drop policies bound pending runs and drop only when full",
  "A reaction limited to N pending instances (one for single) never has more than N instances queued or running at once. A trigger is dropped only while at least N instances are pending, and the capacity is given back when an instance ends in any way, including by exception, by missing data or by being discarded. Dropped triggers never run later.",
  ["schedules", "histories"], "all interleavings of concurrent triggers with completions, any N, and completions by return, exception or discard",
  "The bound is a race between concurrent emitters and finishing tasks, and leaks of the pending count appear only after particular endings; tests use one emitter and normal completion.",
  ["src/dsl/word/Buffer.hpp", "src/dsl/word/Single.hpp", "src/threading/ReactionTask.cpp", "src/util/CallbackGenerator.hpp"],
  [("precondition", "src/dsl/word/Buffer.hpp"), ("pending count", "src/threading/ReactionTask.cpp")],
  state=[("pending instances", "tasks created and not yet destroyed")])

prop("P09", "Work queues lose, duplicate and reorder nothing and free everything",
  "Under every interleaving of producers and consumers each item put into a work queue is taken out exactly once with its value intact, items of one producer come out in the order they were put in, and an attempt to take fails only if the queue was empty at some moment during the attempt. Items still inside when the queue is destroyed are destroyed exactly once, and no memory is used after it is freed.",
  ["schedules", "inputs"], "all interleavings of any number of producers with one consumer (single-consumer queue) or several (shared queue), across any number of internal blocks",
  "The tests run a few fixed thread counts on natural interleavings; the delicate orderings at block boundaries occur with vanishing probability there.",
  ["src/threading/scheduler/queue/MPSCQueue.hpp", "src/threading/scheduler/queue/TaskQueue.hpp", "src/threading/scheduler/queue/detail/block_ops.hpp"],
  [("slot claim and commit", "src/threading/scheduler/queue/TaskQueue.hpp enqueue, try_dequeue"), ("block hand over", "src/threading/scheduler/queue/detail/block_ops.hpp")])

prop("P10", "Idle reactions fire exactly when a pool, or the whole system, runs out of work",
  "Whenever a pool that counts for idleness has run out of work its idle reactions are triggered, and whenever all such pools have run out the system-wide idle reactions are triggered, once for each time the work runs out. They are never triggered while a task of the pool (or, for system-wide ones, of any such pool) is running or able to run, and a system that has come to rest has triggered them since its last work.",
  ["schedules", "programs"], "all interleavings and programs over several pools with local and system-wide idle reactions, groups with waiting tasks, and reactions added or removed at run time",
  "Idle detection depends on the order in which several workers go to sleep relative to submissions; the tests exercise a few fixed programs on natural timing.",
  ["src/threading/scheduler/Pool.cpp", "src/threading/scheduler/CountingLock.cpp", "src/threading/scheduler/Scheduler.cpp", "src/dsl/word/Idle.hpp"],
  [("idle accounting", "src/threading/scheduler/Pool.cpp get_idle_task, get_local_idle_task"), ("last one out", "src/threading/scheduler/CountingLock.cpp")])

prop("P11", "The start and shutdown protocol runs every stage completely and in order",
  "Emissions deferred to initialisation are performed exactly once, and only after start has been called. Startup reactions run one after another on the starting thread, and no pool thread runs a task before they have finished. After a normal shutdown request every shutdown reaction runs exactly once, every task accepted before the request is finished, new ordinary tasks are discarded while inline ones and those of persistent pools still run, and the starting call returns with all threads gone. Requesting shutdown again, from any thread and at any time, is harmless.",
  ["schedules", "programs", "histories"], "all interleavings of a shutdown request with running work, all contents of the initialisation queue, all phases from which messages are emitted",
  "Tests cover one program per stage; ordering and loss at the transitions depend on the interleaving between the requesting thread and the pools.",
  ["src/PowerPlant.cpp", "src/threading/scheduler/Scheduler.cpp", "src/threading/scheduler/Pool.cpp", "src/dsl/word/Startup.hpp", "src/dsl/word/Shutdown.hpp", "src/dsl/word/emit/Initialise.hpp"],
  [("start sequence", "src/PowerPlant.cpp start"), ("stop sequence", "src/PowerPlant.cpp shutdown, src/threading/scheduler/Scheduler.cpp start, stop")])

prop("P12", "A forced shutdown always ends and starts no discarded work",
  "After a forced shutdown request, made from any thread including pool threads and the main thread, every pool stops after at most the tasks already begun, the starting call returns, and tasks still queued are destroyed without running. This includes persistent pools, tasks waiting for a group, and a request that races with a normal shutdown.",
  ["schedules"], "all interleavings of one or more forced or normal requests with workers that run, sleep, wait or exit",
  "The drain of a single-consumer pool is a handshake between the requester and the worker; whether it can hang depends on exact interleavings that tests hit by luck only.",
  ["src/threading/scheduler/Pool.cpp", "src/threading/scheduler/Scheduler.cpp", "src/PowerPlant.cpp"],
  [("forced stop and drain", "src/threading/scheduler/Pool.cpp stop, get_task, drain_queues")])

prop("P13", "Handles and once-only reactions control exactly their own reaction",
  "A disabled reaction is not triggered by any emission until it is enabled again, and an unbound one never again, while all other reactions are unaffected; runs already queued are not lost by disabling. A once-only reaction that ends normally is unbound and is not triggered again. All of this holds for every source of triggers, also when done from inside the reaction itself and when the handle outlives the reaction.",
  ["histories", "programs"], "all sequences of bind, enable, disable, unbind and emissions over several reactions and trigger sources",
  "Tests use one or two handles in a short fixed order; errors such as removing the wrong entry or forgetting one trigger source need longer histories over several reactions.",
  ["src/threading/ReactionHandle.cpp", "src/threading/Reaction.cpp", "src/dsl/word/Once.hpp", "src/dsl/operation/TypeBind.hpp", "src/Reactor.hpp"],
  [("enable and unbind", "src/threading/ReactionHandle.cpp, src/threading/Reaction.cpp"), ("removal from the listener list", "src/dsl/operation/TypeBind.hpp")])

prop("P14", "A throwing reaction harms nothing but its own run",
  "An exception thrown by a reaction, of any type and from any word of its statement's run phase, ends only that run: the thread keeps working, group slots, pending counts and scopes are released, other reactions and later runs of the same reaction are unaffected, and the exception is recorded in the run's statistics. Reactions driven by timers, file descriptors, continuous running or idleness keep being triggered afterwards.",
  ["fault_sequences", "programs"], "all choices of which runs throw, in all kinds of reactions, with any scheduling attributes, queued or inline",
  "Tests throw from at most one or two plain reactions; the resources a failed run must give back differ per kind of reaction.",
  ["src/util/CallbackGenerator.hpp", "src/threading/ReactionTask.cpp", "src/dsl/word/IO.hpp", "src/dsl/word/Always.hpp", "src/dsl/word/TaskScope.hpp", "src/threading/scheduler/Pool.cpp"],
  [("exception capture", "src/util/CallbackGenerator.hpp")])

prop("P15", "Reaction statistics tell the true story of every task",
  "For every triggered, statistics-enabled task the event stream contains created, then started, then finished exactly once each if it ran, or only blocked or only missing-data if it did not. The events carry the right reaction and task identities, the task that caused it, the pool and groups it targets, the thread and pool it ran on, any exception, and times that never run backwards. Listening to statistics never triggers statistics about the listener.",
  ["programs", "schedules"], "all programs of cascading, inline, dropped, failing and limited reactions, under all interleavings",
  "Tests compare one fixed program; wrong causes, missing or doubled events arise for particular combinations of nesting, dropping and failing.",
  ["src/threading/ReactionTask.cpp", "src/threading/ReactionTask.hpp", "src/message/ReactionStatistics.cpp", "src/util/CallbackGenerator.hpp"],
  [("event emission", "src/util/CallbackGenerator.hpp, src/threading/ReactionTask.cpp")])

prop("P16", "A task scope is active exactly during the callbacks that declare it",
  "Asking whether the current thread is inside a named scope is answered yes exactly while the innermost reaction callback being executed by that thread belongs to a reaction declaring that scope, including all code it calls, and no otherwise; a reaction run inline inside it answers for itself and afterwards the previous answer holds again. Nesting to any depth, several scopes at once, and leaving by exception restore the previous answer.",
  ["programs"], "all nestings of inline emissions over reactions with any sets of scopes, with any of them throwing",
  "Tests use one or two scopes at fixed depth without failures.",
  ["src/dsl/word/TaskScope.hpp", "src/dsl/fusion/ScopeFusion.hpp", "src/util/CallbackGenerator.hpp"],
  [("scope guard", "src/dsl/word/TaskScope.hpp")])

prop("P17", "Periodic and delayed triggers fire on time, in order and never early",
  "A periodic reaction is triggered at its binding time plus each whole multiple of its period and never before, whatever else is scheduled, however long callbacks take and however many timers exist; after a late firing it returns to the same grid. A delayed emission is performed exactly once, not before its due time. While the system is not overloaded no trigger is late by more than a small bound, and a removed timer is not triggered again.",
  ["histories", "schedules"], "all sets of periods and delays, all callback durations, all sequences of adding and removing timers, under controlled time",
  "Tests run two or three timers in real time with generous tolerances; accumulated drift, starvation by other timers and ordering of equal deadlines need many timers, long runs and exact time.",
  ["src/extension/ChronoController.cpp", "src/dsl/word/Every.hpp", "src/dsl/word/emit/Delay.hpp", "src/util/precise_sleep.cpp", "src/dsl/operation/ChronoTask.hpp"],
  [("timer heap loop", "src/extension/ChronoController.cpp"), ("period arithmetic", "src/dsl/word/Every.hpp")])

prop("P18", "A watchdog fires if and only if it was not serviced in time",
  "A watchdog reaction is triggered exactly when its timeout has passed since the later of its binding, its last service and its last firing, and then again after every further timeout without service. Servicing one watchdog never affects another group or key. Removing a watchdog stops its firing and leaves all other watchdogs and timers running.",
  ["histories"], "all histories of binding, servicing, firing and removing watchdogs over several groups and keys, under controlled time",
  "Tests use one or two watchdogs with a fixed service pattern in real time; which deadline applies depends on the full service history.",
  ["src/dsl/word/Watchdog.hpp", "src/dsl/word/emit/Watchdog.hpp", "src/extension/ChronoController.cpp"],
  [("deadline check and re-arm", "src/dsl/word/Watchdog.hpp bind")])

prop("P19", "The adjustable clock and time travel obey their equations",
  "Between adjustments the system clock advances at its set rate relative to real time, an adjustment by an amount moves it by exactly that amount and setting it to a time makes it read that time, with no jump caused by changing only the rate. Travelling in time moves the clock to the target and shifts, keeps or limits pending timers exactly as the requested action says: absolute travel keeps due times, relative travel keeps remaining times, and nearest travel goes no further than the next due timer.",
  ["histories", "inputs"], "all sequences of adjustments, rates and travels interleaved with pending timers, under controlled real time",
  "Tests make one adjustment each in real time; composition of several adjustments and rates, zero rates and travels past several timers are not sampled.",
  ["src/clock.cpp", "src/clock.hpp", "src/message/TimeTravel.hpp", "src/extension/ChronoController.cpp"],
  [("clock transform", "src/clock.cpp"), ("travel", "src/extension/ChronoController.cpp TimeTravel reaction")])

prop("P20", "Serialisation round trips, rejects misfits and identifies types stably",
  "For every value of a supported type (plain data and containers of plain data) deserialising its serialised bytes gives an equal value, serialised bytes are exactly the value's bytes in order, and byte strings whose size fits no value are rejected with an error and never read out of bounds. The type identifier is the 64-bit xxHash of the type's name with the documented seed, and the hash functions agree with the published algorithm for every input, length and seed.",
  ["inputs"], "all values, byte strings, lengths, alignments and seeds",
  "Tests use a few values and known hashes; length classes, alignment and values with high bits set are input space questions.",
  ["src/util/serialise/Serialise.hpp", "src/util/serialise/xxhash.cpp", "src/util/demangle.cpp"],
  [("encoding", "src/util/serialise/Serialise.hpp"), ("hash", "src/util/serialise/xxhash.cpp")])

prop("P21", "Network messages arrive intact, at most once and only where addressed",
  "Whatever datagrams are lost, duplicated, delayed or reordered, every message a node delivers was sent by a connected peer to this node or to everyone, has exactly the sent bytes, type and reliability flag and is attributed to that peer, and a reliable message is never delivered twice. On a network that loses nothing every message of any size is delivered. A message that never becomes complete is never delivered.",
  ["inputs", "fault_sequences"], "all message sizes, packet sizes, numbers of messages, targets, and all patterns of loss, duplication, delay and reordering of datagrams",
  "The repository has no automatic test of the network engine at all; integrity under reordering and loss depends on fragment arithmetic, message identifiers and cleanup over long histories.",
  ["src/extension/network/NUClearNetwork.cpp", "src/extension/network/NUClearNetwork.hpp", "src/extension/network/wire_protocol.hpp"],
  [("fragmentation", "src/extension/network/NUClearNetwork.cpp send"), ("reassembly and duplicate detection", "src/extension/network/NUClearNetwork.cpp process_packet")])

prop("P22", "Reliable network messages get through and then fall silent",
  "A reliable message sent to a connected peer is delivered exactly once, as long as the peer stays connected and the network does not lose every copy of a fragment or of its acknowledgement, whatever the loss pattern. Once everything has been acknowledged no more datagrams are sent for it, and a peer that leaves or times out is no longer sent retransmissions.",
  ["fault_sequences", "histories"], "all finite patterns of loss, duplication and reordering of data and acknowledgement datagrams, all message sizes, all numbers of messages in flight",
  "No automatic test exists; acknowledgement bitmaps, retransmission selection and timeouts interact with the loss pattern and the fragment count.",
  ["src/extension/network/NUClearNetwork.cpp"],
  [("acknowledgement", "src/extension/network/NUClearNetwork.cpp process_packet ACK and NACK"), ("retransmission", "src/extension/network/NUClearNetwork.cpp retransmit")])

prop("P23", "No received datagram can crash, corrupt or wedge the network node",
  "For every sequence of datagrams, from any source and with any content or length including empty, truncated, oversized and inconsistent ones, a network node stays within memory bounds, throws nothing out of its processing, keeps its established peers and keeps processing valid traffic. Malformed datagrams are ignored.",
  ["inputs", "fault_sequences"], "all byte strings and all sequences of them mixed with valid traffic",
  "No automatic test exists; parsing errors need malformed inputs that no cooperative peer sends.",
  ["src/extension/network/NUClearNetwork.cpp", "src/extension/network/wire_protocol.hpp"],
  [("packet parsing", "src/extension/network/NUClearNetwork.cpp process_packet, read_socket")])

prop("P24", "Peers join once, leave once and are reachable exactly in between",
  "For each peer a node reports alternating join and leave events starting with a join: a join when the peer is first heard, a leave when it says so or has been silent for longer than the timeout, never otherwise. Events carry the peer's announced name and address. A message to a name reaches exactly the currently joined peers of that name, an empty name reaches all joined peers, and an unknown name reaches nobody.",
  ["histories", "fault_sequences"], "all histories of announcements, departures, silence and restarts of several peers, with datagram loss",
  "No automatic test exists; membership depends on timing and on the order of announcements, data and departures.",
  ["src/extension/network/NUClearNetwork.cpp", "src/extension/NetworkController.cpp", "src/message/NetworkEvent.hpp"],
  [("peer table", "src/extension/network/NUClearNetwork.cpp process_packet, process, announce")])

prop("P25", "File descriptor reactions report every readiness to the right reaction",
  "Whenever a watched descriptor is ready for an event a reaction asked for, that reaction is triggered with that descriptor and a non-empty set of events it asked for that are really pending, one instance at a time per registration, and again while the condition persists. A closed or hung-up descriptor is reported as closed to reactions that asked for it. Unbound or disabled reactions are not triggered, and other descriptors are never affected.",
  ["histories", "schedules"], "all sequences of writing, reading, closing, binding and unbinding over several descriptors and event masks, under all interleavings with the polling thread",
  "Tests use one pipe in a fixed order; event bookkeeping depends on the order of readiness, task completion and list changes.",
  ["src/extension/IOController_Posix.ipp", "src/extension/IOController.hpp", "src/dsl/word/IO.hpp"],
  [("poll loop and event masks", "src/extension/IOController_Posix.ipp"), ("registration", "src/dsl/word/IO.hpp")])

prop("P26", "TCP and UDP reactions receive each connection and datagram exactly once",
  "Each client connection to a listening reaction is delivered once as an open connection with the true local and remote addresses. Each datagram sent to a listening port, or emitted through the UDP scope, is delivered once with exactly the sent bytes and the true addresses to every reaction it is addressed to and to no other. Unbinding closes the socket, and sockets are never leaked or closed twice.",
  ["inputs", "histories"], "all payload sizes and contents, numbers of clients, ports and interleavings of sends, binds and unbinds on the loopback interface",
  "Tests send a few short fixed packets; sizes, bursts and several reactions at once are not covered and the UDP tests do not run in restricted environments.",
  ["src/dsl/word/UDP.hpp", "src/dsl/word/TCP.hpp", "src/dsl/word/emit/UDP.hpp", "src/util/FileDescriptor.cpp", "src/util/network/resolve.cpp"],
  [("datagram receive", "src/dsl/word/UDP.hpp get"), ("accept", "src/dsl/word/TCP.hpp get"), ("send", "src/dsl/word/emit/UDP.hpp")])

prop("P27", "Log messages are published exactly when a threshold admits them",
  "A log call publishes one message if and only if its level is at or above the reactor's display level or its minimum level, and the published message carries the level, the display level, the reactor's name, the task it came from and the arguments joined by single spaces in order. Calls from outside any reaction are always published. Level names convert to levels and back without loss and compare in severity order.",
  ["inputs", "configurations"], "all combinations of call level, display level, minimum level, calling context and argument lists",
  "Tests check one table of levels from within a reaction; the context, argument and both-threshold combinations multiply.",
  ["src/util/Logger.cpp", "src/util/Logger.hpp", "src/util/string_join.hpp", "src/LogLevel.hpp", "src/Reactor.hpp"],
  [("filter", "src/util/Logger.hpp log"), ("content", "src/util/Logger.cpp do_log")])

prop("P28", "A trace file is well formed and records exactly the traced execution",
  "Between beginning and ending a trace the file is a sequence of complete, correctly encoded packets that any conforming reader can decode. It contains one matching record for every reaction event published while tracing, with the right kind, time, thread track and name, one record per log message if logs were requested, and every name, category and track it refers to is defined before its first use and under a unique number.",
  ["programs", "inputs"], "all programs run under tracing, all names and log texts of any length and content, repeated traces",
  "No automatic test reads a trace file; encoding and reference errors depend on values, lengths and order of first use.",
  ["src/extension/TraceController.cpp", "src/extension/trace/protobuf.cpp", "src/extension/trace/StringInterner.hpp"],
  [("wire encoding", "src/extension/trace/protobuf.cpp"), ("interning", "src/extension/trace/StringInterner.hpp"), ("event records", "src/extension/TraceController.cpp")])

prop("P29", "Correct user programs are free of data races without any locks",
  "What a thread did before emitting a message is visible to every reaction run for it, and state touched only by reactions of one sync group, of one single-threaded pool or of one never-overlapping reaction needs no further protection. Under every interleaving the framework itself contains no unsynchronised conflicting memory accesses while handling such programs and uses no memory after it was freed.",
  ["schedules", "programs"], "all interleavings of such programs, judged by happens-before of the actual synchronisation operations and their memory orders",
  "On common hardware a missing ordering almost never changes a test's outcome, and the tests run without any race detection.",
  ["src/threading/scheduler/Group.cpp", "src/threading/scheduler/Pool.cpp", "src/threading/scheduler/queue/MPSCQueue.hpp", "src/threading/scheduler/queue/TaskQueue.hpp", "src/threading/ReactionTask.cpp", "src/threading/Reaction.cpp"],
  [("publication through queues", "src/threading/scheduler/queue/TaskQueue.hpp, MPSCQueue.hpp"), ("group hand over", "src/threading/scheduler/Group.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
