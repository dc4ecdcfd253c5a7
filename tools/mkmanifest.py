#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection, seeded search"
claimed = {
 "C01": "provenance of every report against the table of evaluations of the run, over seeded sessions with goal faults, aborts and resumptions",
 "C02": "every best shown by a swarm against the running minimum of the finite values returned in the run, over seeded sessions with non-finite values, aborts, resumptions and re-runs",
 "C03": "best and worst against the living generation after every iteration, and against the minimum of the run under standard selection, over scripted populations and real sessions",
 "C04": "LimitPopulation, kill_worst and KillFitnessNaN-prefixed chains against a reference rule, on every generation of evolving populations with dead members, ties and non-finite fitness",
 "C05": "every evaluated point against the box, over swarm and genetic sessions with wild components, teleports and aborts",
 "C06": "multiset accounting of tagged individuals and evaluations through every phase of every generation, with aborts at arbitrary component calls",
 "C07": "per-particle refinement of every swarm iteration against a model of move, correction, evaluation, personal and global best",
 "C08": "velocities of every particle of running swarms against a reference of the documented equations; inertia over whole runs; coefficient statistics",
 "C09": "limiters against the documented cap in higher precision, inside running swarms and on boundary vectors",
 "C10": "reference stop decision for every checker and nested composition at every check, over scripted best-value histories, reruns and replacements",
 "C11": "the same seeded run executed whole and cut into resumed segments with replaced components; all events compared",
 "C12": "a run on a used optimizer (finished, aborted or stopped before) compared event by event with the same run on a fresh one",
 "C13": "the complete call sequence of loggers and stop checkers matched against the protocol automaton, with aborts at arbitrary calls",
 "C14": "bytes arriving at simulated devices that interrupt, shorten, refuse and fail writes against the recorded run and a faultless execution",
 "C15": "reported durations against the simulated clock under slow evaluations and wall-clock jumps",
 "C16": "statistics and call counts against a reference record of sessions with pauses, aborts, late attachment and re-runs",
 "C17": "campaigns of real OS threads under a seeded baton scheduler: every worker compared with its solo execution, merged statistics with the union",
 "C18": "provenance of every gene and bit produced by crossings and mutations inside running algorithms; statistics of cut points, genes and bits",
 "C19": "validity and winner frequencies of the real pairings at every generation of evolving populations, under free, stuck and extreme random streams",
 "C20": "interval membership of everything the random creators, initializers and the teleport make, under free, stuck and extreme random streams; statistics of spread and probability",
 "C21": "runs whose populations start empty, die out at scheduled points or never start: no failure, expected iterations, no phantom solution, later success",
 "C25": "the same seeded session executed bare and observed (loggers on faulty writers, statistics, counting goal, attached at pauses, under jumping clocks); all evaluations, stop checks, populations and results compared",
 "C26": "the same seeded session executed with and without a strictly increasing exact change of goal values, or with the swarm's space scaled by a power of two; all events compared through the change",
 "C27": "batches of ten small optimizations hit by bursts of non-finite values and aborts; at least half must reach a bound within a fixed number of iterations (measured success of the tree 97-100%)",
 "C28": "everything the population and swarm interfaces show, looked at from every component before, between and after births, kills and moves, against a model of who is in them",
 "C22": "exact predicate of the filters on every generation of evolving populations with boundary and non-finite values and pre-killed members",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
na = {
 "C23": "pure functions of their arguments: no schedule, clock, I/O, randomness, fault or history can influence them, so there is nothing to simulate",
 "C24": "pure functions of their arguments: no schedule, clock, I/O, randomness, fault or history can influence them, so there is nothing to simulate",
}
for i in ids:
    if i not in claimed and i not in na:
        na[i] = "check not built yet"
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "checks": [{
   "property": i,
   "quick_cmd": "./check.sh " + i,
   "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
   "evidence_file": "evidence/%s.json" % i,
   "technique": T,
   "level": "exploration",
   "level_note": claimed[i] + "; real optlib code under a simulator that owns random stream, clock, I/O, goal, user components, history and schedule; sampled, not exhaustive; trusts rustc and the vendored rand",
 } for i in ids if i in claimed],
 "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i in na and i not in claimed],
 "notes": "No hooks in /repo: seams are optlib's own traits, a vendored rand/getrandom, an interposed clock_gettime and a baton scheduler in /verif. Known findings: known_findings.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
