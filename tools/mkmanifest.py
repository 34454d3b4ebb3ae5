#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C01": ("whole controller", "liveness"),
}
SIM = ("Seeded search over schedules, delays and injected faults of the real code, rewritten at build time so that every routine, lock, channel, timer, clock read and atomic "
       "goes through the simulator. Evidence of absence only for the runs explored; trusts the rewriter's model of Go's primitives and the recorded-history oracle. ")
NOTES = {
 "C01": "Real core controller over a recording implementation; a call that has not returned after faults stop, a deadlock or a spinning routine is a violation. ",
 "C02": "Entry/exit of implementation calls against the life-cycle automaton; overlap and progress are checked while the run proceeds. ",
 "C03": "Histories are explained by a nondeterministic life-cycle automaton (linearizability by subset construction); a history without explanation is a violation. ",
 "C04": "The automaton counts iterations and pushed elements; a run that goes on, stops early or miscounts has no explanation. ",
 "C05": "Simulated clock with wall-clock jumps and stalls; due times are exact up to injected stalls and steps. ",
 "C06": "Errors and panics injected at initialisations, iterations, pushes and distances inside parallel workers. ",
 "C07": "Real kmeans and mcmc over a space whose elements are lists of identifiers, so that every iteration reveals the data set it used. ",
 "C08": "Every set read is compared with the recorded results, at once and again at the end of the run; predictions are matched with one published set. ",
 "C09": "Notifier calls are matched in order with the status changes of the automaton. ",
 "C10": "Batch of real kmeans, mcmc and streaming compared with a sequential reference and with the exact budget. ",
 "C11": "Parallel operations of the real code over a yielding vector space against direct sequential evaluation. ",
 "C12": "Real streaming implementation against an executable reference of the streaming rule, with the order of consumption observed through the space. ",
 "C13": "Concurrent first uses of the real LateDistrib with builders that yield and sleep. ",
 "C14": "Real kmeans and mcmc copied while running and receiving pushes; data sets decoded as for C07. ",
 "C15": "Real mcmc with a random source that returns extreme values at random moments. ",
 "C16": "Simulated start times of iterations under frequencies, pauses, stalls and clock jumps. ",
 "C17": "The automaton counts new data and predicts when a push resumes the instance. ",
 "C18": "Vector-clock happens-before detection on instrumented memory accesses in every simulated run. ",
 "C19": "Every figures read must match the counters of the automaton at some moment of the call. ",
 "C20": "Task table of the simulator at the end of every run. ",
 "C21": "Real kmeans, mcmc and streaming batches executed among other instances that are driven, fail or are held up, compared with the same batch executed alone. ",
 "C22": "Real kmeans, mcmc and streaming and the recording implementation with one routine of the user held up for a minute of simulated time; calls that do not depend on it must return at once. ",
 "C23": "Real kmeans, mcmc and streaming driven through lives, pauses and resumes under concurrent reads and copies; every step is executed again alone, from an equal generator, and compared exactly. ",
}
NA = {
 "P01": "Pure function of its two arguments: no concurrency, time, I/O or randomness, hence no schedule or fault for a simulator to decide; the deciding search would be over inputs only, which is another technique.",
 "P02": "Closed-form arithmetic without concurrency, time, I/O or randomness; nothing to schedule or inject.",
 "P03": "Deterministic validation of a configuration value; nothing to schedule or inject.",
 "P04": "Convergence statement about the arithmetic of one sequential step on fixed data, independent of schedule, time and faults; the schedule-dependent part (parallel equals sequential) is C11 and C10.",
}
claimed = open(os.path.join(here, "tools/claimed.txt")).read().split()
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
           "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": NOTES[p] + SIM.strip()} for p in claimed]
na = [{"property": p, "reason": r} for p, r in NA.items()]
na += [{"property": p, "reason": "check under construction"} for p in props if p not in claimed and p not in NA]
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks rewrite a scratch copy of the sources at build time (sim/rewriter)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
