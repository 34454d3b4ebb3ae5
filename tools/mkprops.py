#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": ", ".join(files)} for m in mech.split(",")]}
    if state: a["state"] = [{"name": state, "meaning": "what the property constrains", "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    over = sorted({{"faults": "fault_sequences", "clock": "fault_sequences"}.get(o, o) for o in over})
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
C = ["core/algo.go", "core/ctrl.go"]
prop("C01", "Every call on a live instance returns",
 "Whatever mix of Init, Play, Pause, Wait, Stop, Push, Predict, Batch and model reads several callers issue on one online clustering instance, every call returns in bounded time (a Wait or Batch as soon as its condition, time-out or the run's own end allows it); no caller or background routine deadlocks or spins forever. "
 "This stays true when the algorithm implementation fails or panics, when the status notifier is slow or calls back into the instance, and when any routine is delayed arbitrarily.",
 ["schedules", "faults", "histories"], "all interleavings of all call sequences by concurrent callers, with implementation errors/panics, slow or re-entrant notifiers and stalled routines",
 "A test sees one interleaving of a hand-shake between caller, run routine, timer and notifier; the deadlocks need a caller to land in windows of a few instructions.",
 C + ["core/timeout.go", "core/model.go"], "status/ack hand-shake between controller calls and the run routine, status and model locks, interruption timer, notification delivery", "status, channels and locks of the controller", "return of every public call under the simulated scheduler")
prop("C02", "Status is truthful and pausing or stopping quiesces the algorithm",
 "At most one initialisation or iteration of an instance's implementation executes at any time, and none executes unless the instance was started. "
 "Once Pause or Stop has returned without error, no iteration is executing and none starts until a later Play (or data-driven resume) succeeds; while the status stays Running with work to do, iterations keep being executed.",
 ["schedules", "histories", "faults"], "all interleavings of control calls, pushes, timers and iterations",
 "A leftover run routine, or an iteration that starts just after Pause returned, exists only in rare interleavings that a sampled test run does not hit.",
 C + ["core/status.go"], "run loop, control hand-shake and status transitions", "status value, number of active run routines", "entry/exit of implementation calls versus returns of control calls")
prop("C03", "Control calls are linearizable against the documented life cycle",
 "Each of Init, Play, Pause, Stop, Wait and Status appears to take effect atomically between its call and its return, following the Created, Initializing, Ready, Running, Idle, Finished life cycle with its documented errors (already created, running, not running, idle, not alive). "
 "The only other transitions are the instance's own: a run that ends becomes Ready, an expired execution time-out or a failure makes it Finished, enough new data makes a Ready instance Running.",
 ["schedules", "histories"], "all histories of concurrent control calls from several callers, with runs that end or fail by themselves at any moment",
 "Sequential unit tests check each transition alone; wrong results (a lost stop, two successful plays of one start, a success reported for a refused transition) need overlapping calls.",
 C + ["core/status.go", "core/error.go"], "status automaton guarded by the controller locks", "status value and error", "results of control calls, checked by a linearizability checker over the recorded history")
prop("C04", "The iteration budget is executed exactly",
 "With Iter and IterPerData configured, a started instance that is neither stopped, timed out nor failed executes iterations until their count since initialisation reaches Iter + pushed elements x IterPerData, then becomes Ready by itself without executing more; with neither configured it does not end by itself. "
 "Pausing, resuming, concurrent pushes and iterations that report no result neither lose nor add counted iterations, and a custom finishing condition ends the run at the first check where it holds.",
 ["schedules", "histories", "inputs"], "all budgets, pause/resume points, push timings and iterations without result",
 "The count must hold for every placement of pauses and pushes relative to the iteration boundary, which real-time tests cannot place.",
 C + ["core/finish.go", "core/figures.go"], "iteration counter, finishing conditions evaluated at each loop turn", "iterations and pushed data counters", "number of implementation iterations between control events")
prop("C05", "Time-outs fire when due, never early, and only for their own run",
 "With a Timeout configured, an instance that is still alive that long after its last start becomes Finished with the time-out error promptly, and never earlier; a time-out armed by one start never ends a later life of the instance. "
 "A Wait with a maximal duration reports the time-out error only after that duration has elapsed and no later than one polling period after; jumps of the wall clock change none of this.",
 ["clock", "schedules", "histories"], "all durations, stop/restart times, pauses, clock jumps and timer delays",
 "It quantifies over the instant at which a timer fires relative to Stop, Play and Init, and over clock jumps; tests with real sleeps cover one instant with loose tolerance.",
 ["core/timeout.go", "core/ctrl.go"], "interruption timer routine and its enable flag, polling wait", "armed time-out of the current run", "simulated time of Finished(time-out) versus start; results of Wait")
prop("C06", "Failures are contained, reported once and recoverable",
 "An error or panic from the implementation's initialisation or iteration never crashes the process or any other caller: it makes the instance Finished with that failure as status error, and the failure is returned by the Init, Play, Wait or Batch call it concerns and given to the notifier. "
 "Centroids of the last successful iteration stay readable, and the instance can be initialised and played again with counters starting from zero; an element refused by the implementation is reported by Push and not counted.",
 ["faults", "schedules", "histories"], "a failure injected at any initialisation, iteration or push, error or panic, combined with any concurrent calls",
 "Each failure point has to be combined with each state of every other caller; unit tests fail one call in one quiet state.",
 C + ["kmeans/init.go", "core/timeout.go"], "panic recovery around the run and initialisation, error status propagation", "status error", "status, call results and notifications after each injected fault")
prop("C07", "Pushed data is neither lost, duplicated nor misplaced",
 "Every element accepted by Push is part of the data set exactly once: the next initialisation, or at latest the second iteration that begins after the Push returned, uses it, and elements from one caller keep their order. "
 "With a bounded frame size the data set is a window holding the most recent elements; concurrent pushes, iterations, pauses, stops and re-initialisations never lose, repeat or alter an element, and Push of a kmeans or mcmc instance neither refuses an element nor waits for a later iteration to make room.",
 ["schedules", "histories", "inputs"], "all interleavings of pushes from several callers with initialisation, iterations, pauses, stops, restarts; all frame sizes",
 "Loss happens when a push meets an exact moment of the run (staging hand-over, end of run, full pipe); the tests push from one routine at quiet times.",
 ["core/buffer.go", "kmeans/impl.go", "mcmc/impl.go", "core/ctrl.go"], "staging of pushes while alive and application at iteration boundaries; fixed-size ring", "staged and applied data", "membership of every element decoded from published centroids (one-hot coordinates) or seen by the initialiser, strategy or space")
prop("C08", "Published centroids are immutable snapshots of whole results",
 "A centroid set returned by Centroids is exactly one complete result of the initialisation or of one iteration, never a partial or mixed one; it never changes afterwards whatever the algorithm does, and successive reads never go back to an older result. "
 "Predict answers with a centroid, label and distance that all belong to one such set that was current during the call, the centroid being a nearest one.",
 ["schedules", "histories"], "all interleavings of reads and predictions with iterations, outliers, restarts, for every algorithm",
 "In-place mutation and torn reads only show when a reader holds a result while a later iteration runs.",
 ["core/model.go", "core/ctrl.go", "streaming/impl.go", "kmeans/seq.go", "mcmc/impl.go", "core/clustering.go"], "publication of centroids under the model lock; fresh slices per iteration", "published centroids", "deep copies of every set at read time compared at the end and against the recorded sequence of results")
prop("C09", "Every status change is notified once, in order, asynchronously",
 "When a status notifier is configured, it is called exactly once for every status change, with the status entered, in the order the changes happened and one call at a time; nothing is notified that did not happen. "
 "Notification is asynchronous: a slow notifier, or one that calls back into the instance, delays neither control calls nor iterations, and it loses no notification.",
 ["schedules", "histories", "faults"], "all interleavings of status changes with notifier calls of any duration",
 "Ordering, loss and blocking depend on where the notifier is when the next change occurs.",
 C + ["core/conf.go"], "queue between status changes and the notifier routine", "pending notifications", "sequence of notifier calls versus the status history")
prop("C10", "Batch executes one complete run and reports its outcome",
 "On an instance with a finite budget, Batch restarts from the data available, runs until the budget is met, and returns with the instance Finished; it returns nil only when the run completed, and otherwise the initialisation failure, iteration failure or time-out that ended it. "
 "For fixed data, configuration and random generator state, the resulting centroids and figures are the same (up to floating-point reassociation between numbers of processors) whatever the scheduling, the number of processors or the delays.",
 ["schedules", "faults", "inputs"], "all schedules, stalls, failures and time-outs during Batch of kmeans, mcmc (sequential and parallel) and streaming",
 "Schedule-independence and error reporting are statements over all interleavings of the parallel workers, run routine and waiter.",
 ["core/ctrl.go", "kmeans/algo.go", "mcmc/algo.go", "streaming/algo.go"], "stop, play, wait, stop composition", "final status and centroids", "result and centroids of Batch compared with a direct sequential evaluation")
prop("C11", "Parallel operations equal their sequential counterparts",
 "Parallel labelling, barycentre reduction and loss evaluation return, for any degree of parallelism and any scheduling of the workers, the same labels, distances and cardinals as the sequential operation and the same barycentres and losses up to floating-point reassociation, and every item is processed exactly once. "
 "They return only when all their workers are done, also when a worker fails, in which case the caller gets the failure; two executions on the same input give identical results.",
 ["schedules", "inputs"], "all worker schedules, degrees (including more workers than items), partitions and worker failures",
 "Worker interleavings are chosen by the runtime; a test cannot force the one where a partition boundary or shared accumulator goes wrong.",
 ["core/util.go", "core/par_assign.go", "core/par_dba.go", "core/par_loss.go", "core/clustering.go", "kmeans/par.go", "mcmc/par.go"], "static partition of items among routines, per-rank partial results, ordered aggregation", "per-rank partial results", "results versus sequential evaluation; calls made by the workers")
prop("C12", "Streaming consumes each pushed element once, in order",
 "A streaming instance takes the elements accepted by Push one per iteration in acceptance order, never losing, repeating or reordering them, and its centroids and maximal distance are the ones obtained by feeding that order to the streaming rule. "
 "Push refuses an element, immediately and with an error, only when the buffer holds BufferSize elements not yet consumed; the buffer never holds more, and when nothing is left to consume no iteration is counted.",
 ["schedules", "histories", "inputs"], "all interleavings of pushes with iterations, pauses and restarts; all capacities",
 "Capacity and order must hold for every interleaving of producers with the consuming run routine.",
 ["streaming/impl.go", "streaming/algo.go", "core/ctrl.go"], "bounded channel between pushers and iterations", "channel content, centroids and cards", "centroids and figures versus a reference execution of the streaming rule on the linearized push order")
prop("C13", "A late distribution is built exactly once before any use",
 "The alteration distribution built from the first element is created exactly once, however many routines make the first call at the same time; every call, including the first ones, is answered by that one distribution after its construction completed.",
 ["schedules"], "all interleavings of concurrent first uses, with a builder of any duration",
 "Double initialisation or use before construction needs two routines inside the first call at once.",
 ["mcmc/latedistrib.go"], "mutual exclusion on first use", "wrapped distribution and its initialised flag", "builder calls and the distribution answering each call")
prop("C14", "A copy is complete and independent",
 "Copy of a kmeans or mcmc instance yields a new instance in Created state with the given configuration and space, whose data set holds every element accepted by the original before Copy was called (as far as the frame size keeps it) and none pushed to it after Copy returned; this holds while the original is running and receiving pushes. "
 "Afterwards neither instance affects the other: pushes, iterations, stops and failures of one change neither status, data nor centroids of the other (random generators and distributions supplied by the caller apart).",
 ["schedules", "histories"], "all moments of copying relative to pushes and iterations of the original",
 "Copying a quiet instance in a test cannot reveal sharing or torn copies that need a concurrent push or iteration.",
 ["core/ctrl.go", "kmeans/impl.go", "mcmc/impl.go", "core/buffer.go"], "implementation copy built from the buffer content", "buffer of original and copy", "elements used by the copy's run versus pushes around Copy")
prop("C15", "MCMC keeps its bounds and its figures consistent under any scheduling",
 "Throughout an MCMC run the number of centroids stays between 1 and the maximum of MaxK and the initial number, and never exceeds the number of data elements; every centroid is a valid element and the reported acceptance count never decreases, never exceeds the iterations and grows exactly when a proposal is accepted. "
 "This holds while data is pushed concurrently, in sequential and parallel mode, and for every value the random generator can produce, including its extreme ones.",
 ["schedules", "inputs", "faults"], "all random draws (extreme values injected), concurrent pushes, parallel worker schedules",
 "Extreme draws have vanishing probability in a test and the data size changes between the steps of an iteration only under concurrent pushes.",
 ["mcmc/impl.go", "mcmc/store.go", "kmeans/init.go", "mcmc/par.go", "mcmc/seq.go"], "proposal of k, per-k centre store, acceptance step, weighted choice", "current proposal, centre store, acceptance counter", "every published centroid set and figure snapshot")
prop("C16", "Iteration frequency is an upper bound on the pace",
 "With IterFreq f, consecutive iterations of a run start at least 1/f apart, also across pauses and resumes, and whatever the duration of iterations, wall clock jumps or stalls; pacing only delays iterations, it neither skips nor adds any. "
 "A Pause or Stop issued while the instance is pacing itself returns within one pacing period and the iteration in progress.",
 ["clock", "schedules"], "all frequencies, iteration durations, stalls, clock jumps and control-call timings",
 "It is a bound on every pair of consecutive iterations under every delay, which needs a controlled clock.",
 ["core/ctrl.go"], "sleep for the remainder of the period after each iteration", "time of the last iteration", "simulated start times of iterations")
prop("C17", "New data resumes a waiting instance, and never anything else",
 "When DataPerIter is positive and the instance is Ready, a push accepted by it resumes it as soon as more than DataPerIter elements have been accepted since the last resume or start of the count, and by the time that Push returns it is Running or already done again. "
 "A data-driven resume never restarts an instance that is Idle, Finished or still Created, and with DataPerIter zero pushes never start anything.",
 ["schedules", "histories"], "all interleavings of pushes with the end of a run, pause, stop and time-out",
 "A resume that races with Stop or with the end of the run cannot be provoked on purpose by a unit test.",
 ["core/ctrl.go"], "counter of new data tested at each push", "new-data counter and status", "status and iterations after each push versus a model of the counter")
prop("C18", "The library is free of data races under its documented concurrent use",
 "No two routines access the same memory location without ordering, at least one of them writing, when callers use one instance concurrently through its public controller and model methods, or use the parallel operations.",
 ["schedules"], "all interleavings of the public methods of an instance running any provided algorithm",
 "A race detector on a test run reports only races of the executed schedule; absence on one schedule says nothing of the others.",
 C + ["core/model.go", "core/timeout.go", "core/buffer.go", "mcmc/latedistrib.go", "core/util.go", "streaming/impl.go"], "locks around controller, model and buffer state", "all shared fields", "vector-clock happens-before detector on instrumented accesses in every simulated run")
prop("C19", "Runtime figures are consistent and monotone",
 "Figures read at any time are a consistent snapshot owned by the reader: iterations and pushed data are the exact counts at one moment of the call, they and the duration never decrease within one life of the instance, and restarting resets them. "
 "After all calls returned and the run ended, iterations equals the iterations that produced a result, pushed data the accepted pushes, and the last-data time the time of the latest accepted push.",
 ["schedules", "histories", "clock"], "all interleavings of reads with pushes, iterations, pauses and restarts",
 "Lost updates and shared maps show only when a reader overlaps an update.",
 ["core/ctrl.go", "core/model.go", "core/figures.go"], "figures map rebuilt under the model lock", "runtime figures map and counters", "every figures read checked against the recorded pushes and iterations")
prop("C20", "A finished instance leaves nothing running",
 "Once an instance is Finished or Ready, its notifications are delivered and its configured time-outs have expired, no routine started by the library on its behalf remains; repeating start and stop cycles does not accumulate routines.",
 ["schedules", "histories", "faults"], "all histories of cycles, failures and time-outs",
 "Leaks depend on which side of a hand-shake is abandoned, i.e. on the interleaving and the fault.",
 C + ["core/timeout.go", "core/util.go"], "ends of the run routine, timer routine, notification routine and workers", "live routines", "the simulator's task table at the end of each run")
prop("C21", "Distinct instances do not interfere",
 "Distinct instances, even of the same kind and created from the same data slice, space and configuration values, share no state: whatever is done to the others (pushes, iterations, pauses, failures, an implementation or notifier held up for long), an instance obtains the results, figures and errors that it obtains alone, and its calls are not delayed by the others. "
 "The library never modifies the data slice or the configuration values given to it.",
 ["schedules", "histories", "faults"], "all histories of other instances of any algorithm of the process",
 "Package-level scratch memory, pools or locks, and aliasing of what the caller gave, show only when two instances run at overlapping moments.",
 ["core/ctrl.go", "core/model.go", "core/buffer.go", "core/util.go", "kmeans/kmeans.go", "mcmc/mcmc.go", "mcmc/latedistrib.go", "streaming/impl.go", "euclid/vectors.go", "dtw/dtw.go"],
 "all mutable state lives in the instance; buffers copy the data given; vector operations allocate",
 "package variables, the slices given at construction", "an instance driven among others compared with the same instance run alone; data and configuration values compared before and after")
prop("C22", "Reads and pushes never wait for the algorithm",
 "Reading the status, centroids or figures, predicting, pushing (unless the configuration bounds the pushes per iteration) and copying return without waiting for the initialisation or iteration in progress, for a finishing condition nor for a notifier, however long these take. "
 "A prediction, push, notification or waiting condition of one caller that is held up delays no call of the others, control calls included.",
 ["schedules", "histories", "faults"], "all moments at which a routine of the user is held up, and all calls made meanwhile",
 "The library's locks are held across user code only for moments in tests; who waits for whom shows when one routine is held up and the others go on.",
 ["core/ctrl.go", "core/algo.go", "core/model.go", "core/timeout.go", "core/buffer.go", "kmeans/impl.go", "mcmc/impl.go", "streaming/impl.go"],
 "no lock is held while the implementation, space, notifier or a condition executes", "locks of the controller and of the implementations", "duration of every call against the duration for which the routines of the user are held up")
prop("C23", "A run is reproducible from its random generator",
 "What an instance computes is a function of its data, its configuration and the state of the random generator in it: the same initialisations, iterations and pushes give exactly the same centroids and algorithm figures, life after life, whatever the scheduling of the routines, the speed of the machine and the clock, "
 "the pauses between iterations, and the reads, predictions and copies made meanwhile by other callers.",
 ["schedules", "histories", "clock"], "all schedules, paces, pauses, clock readings and concurrent reads of a run",
 "A test sees one schedule at a time, and a draw from another generator, a result in completion order or a choice made from the load of the machine gives plausible results.",
 ["kmeans/impl.go", "kmeans/init.go", "kmeans/par.go", "kmeans/seq.go", "mcmc/impl.go", "mcmc/store.go", "mcmc/multivt.go", "mcmc/par.go", "mcmc/seq.go", "streaming/impl.go", "core/par_dba.go", "core/par_loss.go", "core/ctrl.go"],
 "every draw comes from the generator of the configuration, in the routine of the run; parallel results are aggregated by rank", "random generator, current proposal, centre store", "every result of the implementation compared with the same steps executed alone from an equal generator")
prop("P01", "Dynamic time warping distance is the optimal alignment cost",
 "The distance between two series is the minimal total point-wise distance over all monotone alignments permitted by the window, and the barycentre follows an optimal alignment.",
 ["inputs"], "all pairs of series and windows", "Only sampled series are tested.",
 ["dtw/dtw.go", "dtw/cost.go"], "dynamic programme over the cost matrix")
prop("P02", "Vector spaces satisfy their metric and barycentre laws",
 "Euclidean and cosine distances are symmetric and zero on identical elements, Euclidean distance satisfies the triangle inequality, and combining weighted elements gives the weighted mean without altering its arguments.",
 ["inputs"], "all vectors and weights", "Only sampled vectors are tested.",
 ["euclid/vectors.go", "cosinus/cosinus.go"], "closed-form arithmetic")
prop("P03", "Configurations are validated before use",
 "A configuration with an illegal value is refused when an instance is built, and omitted values receive their documented defaults.",
 ["inputs"], "all configuration values", "Only sampled configurations are tested.",
 ["core/conf.go", "kmeans/conf.go", "mcmc/conf.go", "streaming/conf.go"], "verification and default functions")
prop("P04", "A k-means iteration never increases the loss",
 "On a fixed data set in Euclidean space the quadratic loss of the centroids is non-increasing from one iteration to the next.",
 ["inputs"], "all data sets and initial centroids", "Only sampled data sets are tested.",
 ["kmeans/seq.go", "kmeans/par.go", "core/clustering.go"], "Lloyd step")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
