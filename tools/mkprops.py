#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so that statements, anchors and reasons are edited in one place)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


G = "src/GraphCtrl/"
T = "src/UtilsCtrl/ThreadPool/"
E = G + "GraphElement/"
DYN = E + "_GEngine/GDynamicEngine/GDynamicEngine.cpp"
STA = E + "_GEngine/GStaticEngine/GStaticEngine.cpp"
TOP = E + "_GEngine/GTopoEngine/GTopoEngine.cpp"
ELE = E + "GElement.cpp"
PIP = G + "GraphPipeline/GPipeline.cpp"
REPO = E + "GElementRepository.cpp"
PRI = T + "Thread/UThreadPrimary.h"
POOL = T + "UThreadPool.cpp"

prop("C01", "Dependency order holds in every execution, on every engine",
     "In every run of a workflow, no element starts before every element it depends on has finished, whatever the graph shape, the execution "
     "engine (dynamic, topological, static), the thread-pool configuration, thread binding and the scheduling. This holds for nodes and for groups as a "
     "whole (a successor of a group waits for everything inside it), on the first and on every later run.",
     ["schedules", "programs", "configurations"], "all acyclic graphs, engines, pool configurations, thread interleavings, run counts",
     "the tests run fixed small graphs on the free-running OS scheduler; a lost or early decrement of a dependency counter needs a particular interleaving",
     [DYN, STA, TOP, E + "_GEngine/GEngine.h", ELE],
     [("remaining-dependency counter and successor release", "GDynamicEngine::afterElementRun"), ("layered execution", "GStaticEngine::run"),
      ("topological order", "GEngine::getTopo")], ["user callbacks of nodes", "run() return"],
     [("left_depend_", "predecessors not finished in this run"), ("shape_", "precomputed dispatch shape of an element")])
prop("C02", "Every element runs exactly its loop count, and run() returns after all work",
     "When a run succeeds, every visible node has been executed exactly as many times as its loop count (and the loop counts of the groups around it and its hold condition) requires, invisible ones never, and executions of one element never overlap. When run() returns, no element of the workflow is still executing, and the same holds for each of any number of consecutive runs on the same pipeline, also when the pipeline has been made serial.",
     ["schedules", "programs", "configurations", "histories"], "all graphs, loop counts, hold conditions, engines, pool sizes, thread interleavings and run counts",
     "tests count executions on one lucky schedule; a double release or an early completion signal shows only under specific interleavings",
     [DYN, STA, TOP, ELE, PIP],
     [("loop and hold", "GElement::fatProcessor"), ("completion count and wait", "GDynamicEngine::fatWait, parallelRunAll"), ("per-run reset of counters", "GElement::refresh, GDynamicEngine::prepareRun")],
     ["user callbacks of nodes", "run() return"])
prop("C03", "run() always returns within a bounded time once user work ends",
     "Every call of run() returns: after the last user callback of the run has ended, run() comes back within a bounded time (the library's own documented idle waits, about a second), whether "
     "elements succeed, fail or throw, for every engine, pool size and thread interleaving. No wake-up can be lost, so the caller never waits forever.",
     ["schedules", "programs", "configurations", "fault_sequences"], "all graphs x error positions x pool configurations x thread interleavings",
     "a lost wake-up needs the notification to fall between a waiter's check and its sleep, which a test practically never hits",
     [DYN, POOL, PRI, T + "Thread/UThreadBase.h"],
     [("completion notification", "GDynamicEngine::innerExec / afterElementRun / parallelRunOne -> fatWait"), ("idle wait of pool threads", "UThreadPrimary::fatWait / waitRunTask")],
     ["return of run()"])
prop("C04", "A failing element fails the run, stops its dependents and leaves no residue",
     "If any element returns an error status during a run, run() returns an error carrying the code and message of an error that really occurred, no element that depends (directly or transitively) on the failed "
     "one executes in that run, and run() does not return while another element of the same pipeline is still executing. A later run on the same pipeline, without the failure, succeeds and executes everything exactly as a fresh run would.",
     ["schedules", "programs", "fault_sequences", "histories"], "all graphs, failing elements and failing execution numbers, engines, interleavings with concurrently running elements, sequences of failing and succeeding runs",
     "tests return one error from one node and look only at the status; concurrency between the failing element and its siblings is left to chance",
     [DYN, STA, TOP, ELE, E + "GGroup/GCluster/GCluster.cpp", E + "GGroup/GRegion/GRegion.cpp", "src/CBasic/CStatus.h"],
     [("status accumulation", "CStatus::operator+="), ("error path of the engines", "GDynamicEngine::innerExec, parallelRunOne, serialRunAll"), ("state refresh before the next run", "GDynamicEngine::prepareRun")],
     ["run() return value", "user callbacks"])
prop("C05", "An exception of the library type is contained and becomes an error status",
     "If a user callback of an element (run, or the checks around it) throws the library's exception type, the process does not terminate and no pool thread dies: on a pool thread or on the caller's thread it is turned into an error of that "
     "run carrying the exception's text, dependents of that element do not execute, and the pipeline stays usable for later runs.",
     ["schedules", "programs", "fault_sequences"], "all graphs, throwing elements and execution numbers, nesting levels, engines and interleavings",
     "tests throw once from a single node of one shape; containment at every nesting level, on every engine and thread is not explored",
     [ELE, DYN, STA, TOP, "src/CBasic/CException.h", E + "GGroup/GGroup.cpp"],
     [("catch and conversion", "GElement::fatProcessor / crashed"), ("crash propagation", "CGRAPH_FUNCTION_CHECK_STATUS")], ["run() return value"])
prop("C06", "Clusters run in order, regions honour inner dependencies, groups act as a unit",
     "The elements of a cluster execute one at a time in the order given; the elements of a region execute respecting the dependencies among them and otherwise possibly in parallel; each repetition of a group begins only after the previous repetition has completely ended. "
     "An error inside a group stops the group's remaining dependent elements and is reported as the group's error.",
     ["schedules", "programs", "configurations", "fault_sequences"], "all nestings of groups, group and element loop counts, errors inside groups, engines and interleavings",
     "nesting x loops x parallel siblings is far beyond the handful of fixed group graphs in the tests",
     [E + "GGroup/GCluster/GCluster.cpp", E + "GGroup/GRegion/GRegion.cpp", E + "GGroup/GGroup.cpp", DYN],
     [("serial execution", "GCluster::run"), ("inner engine", "GRegion::run -> GElementManager::run")], ["user callbacks"])
prop("C07", "Conditions run exactly the chosen branch, multi-conditions the matching ones",
     "Each execution of a condition evaluates the user's choice once and then executes exactly the chosen element (the last one for the documented 'last' choice, none when the choice is out of range) and nothing else. A multi-condition evaluates the match of every element, executes exactly those that match - one after another in order for the serial kind, all of them finished before it ends for the parallel kind - and reports an error of any of them; invisible elements are never executed.",
     ["schedules", "programs", "inputs", "fault_sequences"], "all choices and match outcomes including out-of-range ones, loops, nesting, errors, interleavings",
     "tests cover one or two branch choices; combinations of choices, loops, nested groups and errors are not enumerated",
     [E + "GGroup/GCondition/GCondition.cpp", E + "GGroup/GCondition/GMultiCondition.inl"],
     [("choice", "GCondition::run"), ("match, serial and parallel", "GMultiCondition::serialRun / parallelRun")], ["user callbacks"])
prop("C08", "A quorum group completes when its trigger count is reached, and not before",
     "A quorum group becomes complete only after at least its trigger number of children finished (successfully, absent errors), it does not wait for the rest before letting its successors proceed, and every child is started at most once per execution of the group; one that is still at work when the group is complete can see that it timed out, and one whose work goes on behind a limit is not started again. The children still running are waited for before the group executes again and before run() returns; an error of a child that finishes before the group is complete makes the group fail, and a later one is reported by run().",
     ["schedules", "programs", "fault_sequences"], "all child counts, trigger counts, child durations and completion orders, runs in sequence",
     "depends on the order in which asynchronous children finish relative to the trigger; tests sleep fixed times",
     [E + "GGroup/GSome/GSome.h", E + "GGroup/GSome/GSome.cpp", REPO],
     [("trigger countdown", "GSome::run"), ("hold until pipeline end", "GElementRepository::reset")], ["user callbacks", "run() return"])
prop("C09", "A mutable group executes exactly the structure built for that execution",
     "Each execution of a mutable group first asks the user to build its structure, then executes exactly the elements made visible, as often and in the dependencies given in that structure, and none of an earlier structure leaks into it. A cyclic structure is an error, and none of its elements is executed.",
     ["schedules", "programs", "histories"], "all sequences of structures over all executions of the group, engines and interleavings",
     "the tests use one or two fixed structures; leakage between consecutive structures needs a history",
     [E + "GGroup/GMutable/GMutable.cpp", E + "GElement.inl", DYN],
     [("reset, reshape, process", "GMutable::run / setup / reset"), ("re-analysis", "GElementManager::process")], ["user callbacks"])
prop("C10", "Cancel stops a run promptly and cleanly, and the pipeline can run again",
     "After cancel() has been accepted while a run (or process()) is in progress, elements that have not yet started their work do not start it, the ones in progress are waited for, and the call returns within a bounded time without a deadlock and without anything still executing. The next run (after cancel has taken effect) executes every element completely again.",
     ["schedules", "programs", "histories"], "cancel at any point of any run, on any engine, from any thread, repeated",
     "cancel from another thread at an arbitrary instruction of the run is a schedule question; the tests sleep and cancel once",
     [REPO, PIP, ELE],
     [("state broadcast", "GElementRepository::pushAllState"), ("state test in the loop", "GElement::fatProcessor")], ["run() return", "user callbacks"])
prop("C11", "Suspend and resume lose no work and never leave a run stuck",
     "Suspending a running pipeline and resuming it later, any number of times and at any moment, changes nothing about what is executed: every element still executes exactly its number of times in dependency order, run() returns after resume within a bounded time, and nobody stays asleep after a resume. While the pipeline is suspended no element begins an execution beyond the one each thread had already decided on, and a cancel while suspended ends the run.",
     ["schedules", "programs", "histories"], "suspend/resume at any point of any run, from any thread, repeated, with cancel while suspended",
     "a resume that races with an element going to sleep, or an element that starts while suspended, needs one exact interleaving",
     [REPO, PIP, ELE],
     [("state broadcast and wake-up", "GElementRepository::pushAllState"), ("sleeping while suspended", "GElement::checkSuspend")], ["run() return", "user callbacks"])
prop("C12", "Element timeouts behave per strategy and never leak work into the next run",
     "An element whose work exceeds its timeout (counted from its hand-over to the pool) is reported as an error under the 'error' strategy, and under the 'hold' strategy lets successors proceed and is waited for before run() returns, with its late result included in the status; an element that finishes in time behaves as if no timeout were set, and is never reported as late. The wait of the workflow for a timed element ends when its work ends or the timeout expires, whichever comes first, and every such element starts exactly once per run; work that may outlive run() never outlives destroy() and never runs twice at a time. An element is told that it timed out exactly if its limit or that of a group around it passed. A timed-out group under 'hold' starts no further inner work, and no inner element ever starts without those before it in the group; pausing, resuming or cancelling the run changes none of this, and a later run never starts an element whose late work of an earlier run still executes.",
     ["schedules", "programs", "configurations", "fault_sequences"], "all timeouts, durations, strategies, positions in a graph or group, interleavings, clock behaviour and run sequences",
     "the race between the timer and completion is decided by the real clock in a test; only clearly separated values are tried",
     [ELE, REPO],
     [("asynchronous execution with deadline", "GElement::asyncRun"), ("waiting at the end", "GElementRepository::reset")], ["run() return value", "user callbacks"])
prop("C13", "A fence waits for the asynchronous elements it guards",
     "A fence placed in a workflow finishes only after every element it was told to wait for has really finished its asynchronous work, and whatever depends on the fence starts after that; errors of the awaited elements are reported.",
     ["schedules", "programs"], "all sets of awaited elements, durations, timeouts, interleavings and run sequences",
     "tests sleep fixed times; the ordering must hold for every completion order",
     [E + "GAdapter/GFence/GFence.cpp", ELE], [("waiting", "GFence::run -> getAsyncResult")], ["user callbacks"])
prop("C14", "Every parameter is set up and reset exactly once per run, around all elements",
     "In every run each shared parameter of the pipeline is set up exactly once before any element starts and reset exactly once after every element has finished - also when the run fails, is cancelled or an element throws - and the reset is told the final status of the run. A value an element writes is seen by every element that starts after it in dependency order.",
     ["schedules", "histories", "fault_sequences", "programs"], "all graphs, engines, failures, cancels, interleavings and run sequences",
     "tests look at one parameter in one successful run; balance over failing, cancelled and crashing runs is not sampled",
     [G + "GraphParam/GParamManager.cpp", PIP, G + "GraphParam/GParam.h"],
     [("setup and reset around the run", "GPipeline::run, GParamManager::setup / resetWithStatus")], ["parameter callbacks"])
prop("C15", "Parameter creation and locking are safe under concurrent use",
     "Concurrent creation of the same parameter by several elements yields exactly one object, which every later lookup of that key returns, and lookups of other keys are not disturbed by it; updates made under the parameter's own lock by concurrent elements are never lost and the lock is reported free once released. The keys an element or event reports as used are exactly those it looked up successfully, even if lookups run in several threads or the parameter was removed meanwhile.",
     ["schedules", "programs"], "all interleavings of creation, lookup, locking and removal by parallel elements",
     "needs colliding creations and lookups; a test that loops hopes for a collision",
     [G + "GraphParam/GParamManager.cpp", G + "GraphParam/GParamManager.inl", G + "GraphParam/GParam.cpp"],
     [("creation under the manager's lock", "GParamManager::create"), ("per-parameter lock", "GParam::lock / unlock / tryLock")], ["parameter pointers and values seen by elements"])
prop("C16", "Aspects bracket every execution of their element",
     "For every execution of an element with aspects, the begin hooks run once in registration order before the work and the finish hooks run once after it with the status the work produced; a begin hook that fails prevents the work and fails the element, and a crash calls the crash hook, a timeout the timeout hook. The same bracketing holds for init and destroy, and parallel elements' aspects do not mix.",
     ["schedules", "programs", "fault_sequences"], "all combinations of aspects, loops, failures, throws, timeouts, groups and interleavings",
     "the tests attach one aspect and look at no ordering; failing hooks and crash hooks across engines are not covered",
     [G + "GraphAspect/GAspectManager.cpp", ELE], [("reflection of hooks", "GAspectManager::reflect"), ("hook points", "GElement::doAspect / fatProcessor")], ["aspect callbacks"])
prop("C17", "Every accepted event trigger is executed exactly once and awaited as promised",
     "A synchronously notified event is handled once before the notification returns; an asynchronously notified event is handled exactly once, and before run() returns when triggered during the run (or before the pipeline is destroyed, for the documented long-lived kind). Waiting on the returned handle returns only after the handler ended, notifying an unknown event is an error (or an invalid handle), and none of this depends on who notifies from which thread or whether the pipeline is serial.",
     ["schedules", "programs", "histories"], "all sequences of notifications from parallel elements, strategies, handler durations, pool sizes and run/destroy interleavings",
     "concurrent notifications while the run ends race with the bookkeeping of pending handlers; tests notify a few times and sleep",
     [G + "GraphEvent/GEvent.cpp", G + "GraphEvent/GEventManager.cpp", PIP],
     [("async dispatch and record", "GEvent::asyncProcess"), ("waiting at end of run / destroy", "GEventManager::reset / destroy")], ["event callbacks", "futures"])
prop("C18", "A stage releases its members only when the last one has arrived, every round",
     "No thread that enters a stage leaves it before the stage's threshold of entries has been reached; when it is, all of them are released and the launch callback runs exactly once per round, for any number of consecutive rounds, without deadlock, also when the callback throws. Entering a stage that does not exist is an error and does not block.",
     ["schedules", "histories"], "all arrival orders, rounds, thresholds and interleavings, including a member re-entering immediately",
     "fast re-entry overlapping with slow leaving is a barrier bug only visible in specific schedules",
     [G + "GraphStage/GStage.cpp", G + "GraphStage/GStageManager.h"], [("barrier", "GStage::waiting")], ["return from entering the stage"])
prop("C19", "A daemon runs only between init and destroy and is stopped within bounded time",
     "A daemon's task is executed periodically at its interval (never two executions at once, never earlier than the interval; an execution longer than the interval is followed by a full interval) while the pipeline is initialised, is never running once destroy has returned, and stopping it takes no longer than its current execution plus a bounded delay.",
     ["schedules", "histories", "configurations"], "all intervals, task durations, destroy times and init/destroy sequences",
     "tests sleep and look at output; a tick after destroy or a long stop needs the stop to race with the timer",
     [G + "GraphDaemon/GDaemon.cpp", "src/UtilsCtrl/Timer/UTimer.h"], [("periodic task", "UTimer::start / stop")], ["daemon callbacks", "destroy return"])
prop("C20", "Messages are delivered exactly once, in order, subject to the documented policy",
     "Messages sent on a topic are received in the order each sender sent them, each at most once, and none is lost when the policy is to wait for room; under the drop and replace policies exactly the documented message is given up and the number of stored messages never exceeds the capacity. A receive with a timeout returns an error after about that time if nothing arrives and otherwise the message.",
     ["schedules", "histories", "configurations"], "all capacities, sender/receiver counts, policies, timeouts and interleavings",
     "full/empty races between several senders and receivers are schedule dependent; tests use one of each with sleeps",
     [T + "Queue/UAtomicRingBufferQueue.h", G + "GraphMessage/GMessageManager.h", G + "GraphMessage/GMessage.h"],
     [("bounded queue", "UAtomicRingBufferQueue::push / waitPop / waitPopWithTimeout")], ["sent and received values"])
prop("C21", "Publish/subscribe delivers each message to every subscriber bound at that time",
     "A published message is received exactly once, in publishing order, by every connection bound to the topic when it is published (subject to the waiting policy when its buffer is full); connections bound to other topics, bound later, detached or dropped do not receive it. Publishing to a topic that was never bound, and receiving on an unknown connection, are errors without side effects.",
     ["schedules", "histories", "configurations"], "all sequences of bind, publish and receive by concurrent threads, capacities and policies",
     "per-subscriber completeness under concurrent publishers is not checked by the tests",
     [G + "GraphMessage/GMessageManager.h"], [("fan-out", "GMessageManager::pubTopicValue / subTopicValue / bindTopic")], ["published and received values"])
prop("C22", "Every task accepted by the thread pool is executed exactly once",
     "Every task handed to a running thread pool - with any submission interface, priority, or thread hint, from any thread, also from inside a task - is executed exactly once by exactly one thread, and its future becomes ready with exactly its result or exception. Work stealing and batching never duplicate or lose a task.",
     ["schedules", "configurations", "programs"], "all submission patterns, pool configurations, stealing/batching settings and interleavings",
     "duplication or loss in stealing needs the owner and the thief to meet on one element; tests count a few sums",
     [POOL, T + "UThreadPool.inl", PRI, T + "Thread/UThreadSecondary.h", T + "Queue/UWorkStealingQueue.h", T + "Queue/UAtomicQueue.h", T + "Queue/UAtomicPriorityQueue.h"],
     [("dispatch", "UThreadPool::executeInner / commit"), ("stealing", "UWorkStealingQueue::trySteal, UThreadPrimary::stealTask")], ["task bodies", "futures"])
prop("C23", "The thread pool makes progress: queued tasks start within a bounded time",
     "As long as some thread of the pool is able to take general work, every queued task that the pool's configuration allows to be taken by it starts within a bounded time: no wake-up is lost for longer than the pool's idle interval, however the task was submitted.",
     ["schedules", "configurations"], "all pool configurations, submission patterns and interleavings",
     "a lost notification shows as a one-off delay which tests cannot distinguish",
     [PRI, T + "Thread/UThreadBase.h", POOL, T + "Queue/UAtomicQueue.h"],
     [("idle wait and notification", "UThreadPrimary::fatWait, pushTask, wakeup")], ["start times of tasks"])
prop("C24", "Pool shutdown is clean, bounded and repeatable",
     "Destroying a pool at any moment returns within a bounded time after the running tasks end, leaves no thread behind, never executes a task afterwards, never runs one twice and never crashes, and every future of a task that was not executed is reported as broken rather than blocking forever. A pool that is initialised again works like a new one, and an initialisation for which the system refuses a thread is reported as an error, leaves nothing behind and can be retried.",
     ["schedules", "histories", "configurations"], "destroy at any point relative to queued, running and idle work; repeated init/destroy cycles; all configurations including the monitor thread",
     "the tests destroy idle pools; shutdown with work in every stage of its life is a crash-point question",
     [POOL, T + "Thread/UThreadBase.h", PRI, T + "Queue/UAtomicQueue.h"], [("stopping and joining", "UThreadBase::reset, UThreadPool::destroy")], ["live threads", "task bodies", "futures"])
prop("C25", "A task group's submit waits for all its tasks or its time limit",
     "Submitting a task group returns success only after every task of the group has been executed exactly once; if the limit passes first it returns an error at about that time, the remaining tasks still run exactly once, and the finish callback is called exactly once with the status that is returned. The same holds for groups which nodes submit to the pool of their pipeline, wherever the node stands in the workflow.",
     ["schedules", "configurations", "inputs"], "all group sizes, durations, limits and interleavings",
     "the boundary between completion and expiry is timing; tests use only generous limits",
     [POOL, T + "Task/UTaskGroup.h"], [("deadline wait", "UThreadPool::submit")], ["submit return", "callback"])
prop("C26", "Higher-priority tasks are taken before lower-priority ones",
     "Among tasks waiting in the pool's priority queue, a free worker always takes one with the highest priority first.",
     ["schedules", "inputs", "histories"], "all sets of priorities, insertion orders and interleavings of insertion and removal",
     "with one lucky allocation order the right order may appear by chance",
     [T + "Queue/UAtomicPriorityQueue.h", T + "Task/UTask.h", T + "UThreadPool.inl"], [("priority queue", "UAtomicPriorityQueue::push / tryPop")], ["task start order"])
prop("C27", "The pool never exceeds its maximum thread count and recycles extra threads",
     "The number of live pool threads never exceeds the configured maximum (plus the optional monitor), whatever creates or releases auxiliary threads concurrently, and with the monitor one is added when all core threads are busy for long and the maximum allows it, and the auxiliary threads are released in an idle phase, within the configured life time of an idle one, however long they worked before. Releasing one, or a refused creation of one, never loses a task.",
     ["schedules", "configurations", "histories"], "all load patterns over time, configurations and interleavings, including explicit creation and release during the monitor's pass",
     "needs simulated minutes of load changes and races between the monitor and callers",
     [POOL, T + "Thread/UThreadSecondary.h"], [("elastic threads", "UThreadPool::monitor, createSecondaryThread, releaseSecondaryThread")], ["live threads over time"])
prop("C28", "The pipeline manager never runs one pipeline twice at a time and loses none",
     "With several threads calling run on a pipeline manager, one pipeline is executed by at most one caller at a time, each successful call executes exactly one pipeline and returns its status, and a call that finds none free returns an error and executes nothing. After all calls every pipeline is available again - also after failing runs - and adding, removing or clearing during the calls never affects a pipeline in use. A failing init or destroy of the manager is reported, leaves no pipeline initialised by it, and the manager can be initialised and used again.",
     ["schedules", "histories", "fault_sequences"], "all numbers of pipelines and callers, failures and interleavings of run, fetch, release, add, remove and clear",
     "exclusion and conservation over arbitrary interleavings of callers cannot be seen from a handful of test calls",
     [G + "GraphPipeline/GPipelineManager.cpp"], [("free/busy sets", "GPipelineManager::run / fetch / release")], ["pipeline bodies", "return values"])
prop("C29", "Pipelines sharing one thread pool are isolated from each other",
     "Pipelines that share a thread pool and run concurrently behave as if each had its own: each satisfies its dependency order, execution counts and status reporting, an error, timeout, cancel or destroy of one never affects another. Destroying one while others run touches nothing of theirs, leaves the shared pool working, and leaves no work of the destroyed one in it.",
     ["schedules", "programs", "histories", "fault_sequences"], "all graphs, numbers of pipelines, error positions, destroy times and interleavings",
     "cross-talk or use of a destroyed pipeline's state needs a slow worker at the moment the other pipeline finishes",
     [G + "GraphPipeline/_GSchedule/GSchedule.cpp", DYN, POOL], [("shared scheduling", "GSchedule::makeType / init / destroy")], ["user callbacks", "run() return", "heap accesses"])
prop("C30", "Init and destroy are balanced and exact, also when one of them fails",
     "Initialising a pipeline initialises every visible element exactly once, in the order of their levels, and destroying it destroys each exactly once; calls in the wrong state are errors and change nothing, and process(N) initialises once, runs N rounds (none after a failing one) and destroys once. A failed init - by an element or because the system refuses a thread - is reported, every element it had initialised is destroyed again, no thread or daemon is left and a retry works; a failing destroy of an element is reported and everything else is destroyed. Removing an initialised pipeline stops its daemons and threads before anything they use goes away.",
     ["histories", "fault_sequences", "programs", "schedules"], "all sequences of init, run, process, destroy calls, asynchronous variants, failures of element init/destroy, resource failures",
     "histories of lifecycle calls with failures grow exponentially; tests use init-run-destroy",
     [PIP, E + "GElementManager.cpp", E + "GGroup/GGroup.cpp", REPO], [("lifecycle", "GPipeline::init / destroy / process")], ["element callbacks", "return values"])
prop("C31", "A saved pipeline loads back equivalent; damaged or failed storage is reported",
     "Loading a pipeline from a file written by saving one reproduces the same elements, names, loop counts, levels, visibility, bindings, timeouts, grouping and dependencies, parameters, aspects, events, stages, daemons and pool configuration, so that it runs equivalently; elements that cannot be stored make saving fail. Saving reports success only if the file was completely written; a missing, truncated or unreadable file yields an error, and damaged bytes never yield a crash or a hang.",
     ["programs", "crash_points", "fault_sequences", "inputs"], "all storable pipelines; crash at every byte of the file; short, failed and torn writes; read errors; damaged bytes",
     "tests save and load one pipeline on a perfect disk",
     [G + "GraphPipeline/_GStroage/GStorage.cpp", "src/UtilsCtrl/Reflection/UReflectionType.h", PIP], [("save/load", "GStorage::save / load"), ("field encoding", "UReflection read/write")], ["save/load return values", "structure of the loaded pipeline"])
prop("C32", "Queues keep order and capacity, and lose or duplicate nothing",
     "The queues deliver the elements pushed by a producer in order, each exactly once, never report a value that was not pushed, and the bounded ones never hold more than their capacity, also after being cleared; blocked producers and consumers proceed as soon as the other side allows it. The work-stealing queue gives each element to its owner or to a thief, never to both and never to nobody.",
     ["schedules", "histories", "configurations"], "all capacities, producer/consumer counts (one each for the lock-free one) and interleavings",
     "wrap-around races need a precise interleaving of index updates",
     [T + "Queue/UAtomicRingBufferQueue.h", T + "Queue/ULockFreeRingBufferQueue.h", T + "Queue/UWorkStealingQueue.h"], [("ring indexes", "push / tryPop / waitPop")], ["queue values"])
prop("C33", "The spin lock excludes and always hands over",
     "At most one thread at a time is between a successful lock and the matching unlock of a spin lock, try-lock succeeds only when it is free and reports truthfully, and an unlock lets a waiting thread in within a bounded time.",
     ["schedules"], "all interleavings of lock, try-lock and unlock by any number of threads",
     "exclusion failures need an instruction-level interleaving", [T + "Lock/USpinLock.h"], [("test-and-set", "USpinLock::lock / tryLock / unlock")], ["critical sections"])
prop("C34", "A singleton node shared by pipelines is initialised once and destroyed once",
     "A singleton node used in several places and several pipelines has one shared instance that is initialised exactly once before its first execution, however many pipelines initialise concurrently, is destroyed only once, by the last of its users, and never executed outside that period.",
     ["schedules", "histories"], "all numbers of uses and pipelines, orders of init/run/destroy and interleavings",
     "init of two pipelines at the same time is a schedule question; tests init sequentially",
     [E + "GAdapter/GSingleton/GSingleton.inl", "src/UtilsCtrl/Singleton/USingleton.h"], [("once-only init", "GSingleton::init / destroy")], ["callbacks of the shared node"])
prop("C35", "Profiling a pipeline executes it once and leaves it unchanged",
     "The profiling run executes the pipeline like an ordinary init-run-destroy, reports a record for each element that ran, whose times are consistent with the execution, and leaves the pipeline, its dump and the behaviour of later runs exactly as before - also after a run that failed.",
     ["programs", "histories", "fault_sequences", "schedules"], "all graphs, failures, sequences of profiling and normal runs, interleavings",
     "tests print the result of one profiling run", [G + "GraphPipeline/_GPerf/GPerf.cpp", G + "GraphPipeline/_GPerf/GPerfAspect.h"], [("temporary aspect", "GPerf::perf")], ["user callbacks", "profile output"])

prop("C36", "Every wait on the semaphore takes exactly one signal",
     "A wait on the semaphore returns only by taking a signal that no other wait took, and a signal given while nobody waits is kept for the next wait. No signal is lost: a waiter proceeds within a bounded time after a signal meant for it.",
     ["schedules", "histories"], "all numbers of waiters and signallers, orders and interleavings",
     "no test covers the semaphore; a lost or early wake-up needs the signal between a waiter's test and its sleep", [T + "Semaphore/USemaphore.h"], [("counting and waking", "USemaphore::signal / wait")], ["return of wait()"])

prop("C37", "What a pipeline reports about its structure is what its execution shows",
     "Two elements are reported as ordered exactly if the graph or their groups order them in every execution, predecessors, successors, parents and children are mutually consistent, and the reported maximum parallelism of a flat graph is its true width, which no execution exceeds and which is never less than what an execution shows. Removing redundant dependencies removes exactly the implied ones and leaves every order and execution the same, and a graph with a dependency cycle is refused on every engine, with an error and without executing or hanging.",
     ["programs", "schedules", "configurations"], "all graphs, groups and engines; all interleavings of the runs that confirm the answers",
     "tests compare answers for a few graphs with literals; they never compare with executions",
     [E + "_GOptimizer/GSeparateOptimizer.h", E + "_GOptimizer/GMaxParaOptimizer.h", E + "_GOptimizer/GTrimOptimizer.h", E + "_GEngine/GEngine.h", PIP],
     [("structure queries", "GPipeline::checkSeparate / getMaxPara / trim"), ("cycle detection", "GEngine::isDag")], ["query results", "user callbacks"])
prop("C38", "An asynchronous run is one ordinary run and its future reports it truthfully",
     "Running or processing a pipeline asynchronously performs exactly what the synchronous call performs - same executions, order, lifecycle and status - whether started at once or deferred to the first wait. The future becomes ready only when no element is executing any more, always becomes ready, also after failures, and holds the status of that run; a deferred run executes nothing before it is waited for, and a call in the wrong state is refused without side effects.",
     ["schedules", "histories", "fault_sequences", "programs"], "all graphs, launch policies, sequences of asynchronous and synchronous calls, failures and interleavings",
     "tests call it once and wait immediately", [PIP], [("asynchronous calls", "GPipeline::asyncRun / asyncProcess")], ["future status and value", "user callbacks"])
prop("C39", "Functional elements and thread coordinators do what their definition says",
     "An element made from functions calls the given functions for init, run and destroy exactly when an ordinary node's would be called, their errors and exceptions are reported alike, and it obeys order, loops and groups. A coordinator executed in a workflow changes the number of auxiliary threads by its amount - never above the pool's maximum, a refused release is an error that stops the run - and never disturbs the work in progress.",
     ["programs", "schedules", "fault_sequences", "histories"], "all graphs with such elements, amounts, failures, run counts and interleavings",
     "tests use one functional element and no coordinator under load", [E + "GAdapter/GFunction/GFunction.cpp", E + "GAdapter/GCoordinator/GCoordinator.inl", POOL],
     [("functional element", "GFunction::run"), ("coordinator", "GCoordinator::run")], ["the functions given", "live threads", "run() return"])
prop("C40", "A lazy singleton is constructed once, completely, before anyone sees it",
     "However many threads ask a lazy singleton for its object for the first time at once, exactly one object is constructed, every caller gets that one, completely constructed, and it is destroyed once with the singleton.",
     ["schedules"], "all numbers of callers and interleavings of the first calls", "needs two first calls inside the construction", ["src/UtilsCtrl/Singleton/USingleton.h"], [("first use", "USingleton::get")], ["returned pointers", "constructor and destructor"])
prop("C41", "Pipelines can be created, used and removed by many threads at once",
     "The factory gives every caller its own pipeline, keeps it alive until it is removed or everything is cleared, and destroys it exactly once with everything it contains; creations, removals and runs of other pipelines by other threads at the same time affect nothing of it, and after a clear nothing is left except what a creation at the same time was given afterwards.",
     ["schedules", "histories"], "all numbers of threads, sequences of create, run, remove and clear and their interleavings",
     "tests create pipelines from one thread", [G + "GraphPipeline/GPipelineFactory.cpp"], [("the list of pipelines", "GPipelineFactory::create / remove / clear")], ["element callbacks", "live objects"])
prop("C42", "Sequential utilities compute what they document",
     "The LRU cache keeps the most recently used entries up to its capacity, the small vector and the unique array keep their elements in order, the distance calculators compute the named distance, and random sequences stay within their range.",
     ["inputs"], "all inputs and call sequences of one thread", "tests cover few values", ["src/UtilsCtrl/Lru/ULru.h", "src/UtilsCtrl/Distance/UDistance.h"], [("containers", "ULru"), ("distance", "UDistance")], ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, s)
        assert len(p["title"]) <= 80, p["id"]
        for x in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), x
    print(len(P))
