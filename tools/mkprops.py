#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, in readable form)."""
import json, os
G = "optlib/src/genetic/mod.rs"
PS = "optlib/src/particleswarm/mod.rs"
VC = "optlib/src/particleswarm/velocitycalc/mod.rs"
PV = "optlib/src/particleswarm/postvelocitycalc/mod.rs"
PM = "optlib/src/particleswarm/postmove/mod.rs"
IN = "optlib/src/particleswarm/initializing/mod.rs"
SEL = "optlib/src/genetic/selection/mod.rs"
SELV = "optlib/src/genetic/selection/vec_float.rs"
PB = "optlib/src/genetic/pre_birth/vec_float.rs"
CR = "optlib/src/genetic/creation/vec_float.rs"
PA = "optlib/src/genetic/pairing/mod.rs"
MU = "optlib/src/genetic/mutation/mod.rs"
XO = "optlib/src/genetic/cross/mod.rs"
LG = "optlib/src/tools/logging/mod.rs"
SC = "optlib/src/tools/stopchecker/mod.rs"
ST = "optlib/src/tools/statistics/mod.rs"
TO = "optlib/src/tools/mod.rs"
LIB = "optlib/src/lib.rs"
TF = "optlib-testfunc/src/lib.rs"

def m(name, where): return {"name": name, "where": where}
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state), "mechanism": mechanism,
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "Every reported solution was really evaluated in the current run",
  "Whatever the goal function returns (NaN and infinities included, or a panic at any evaluation), every solution an optimizer reports - as the result of a run or a resumption, to loggers or to stop checkers - is a point the goal function was called with during the current run, paired with exactly the value that call returned. The same holds for every agent (individual or particle) exposed to user components. A particle swarm with at least one particle always reports a solution.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "Both algorithms; all goal functions, random streams, goal faults (NaN, +-inf, panic) at any evaluation, histories of runs, resumptions, aborted and repeated runs.",
  "Tests check one final result against the known optimum of four smooth functions; none follows which evaluation a reported pair came from, none has a faulty goal, an aborted or resumed run, and no end-to-end swarm run is in the stable tests.",
  [G, PS, LIB],
  [m("fitness stored at birth, best individual cloned from the generation", G + ":push, update_best_worst_individuals"),
   m("value stored with coordinates on every move, best particle cloned", PS + ":move_to, update_best_particle, renew_swarm")],
  ["Optimizer::find_min and IterativeOptimizer::next_iterations results", "AlgorithmState::get_best_solution in loggers and stop checkers", "AgentsState::get_agents"])

prop("C02", "The swarm's best is the lowest finite value found so far",
  "After initialization and after every completed iteration of a particle swarm run, the reported best goal value equals the minimum over all finite values the goal function has returned in this run, so it never gets worse within a run; that includes values returned in an iteration that a panic aborted, once the run is resumed. A non-finite value is reported as best only while no finite value has been returned in the run.",
  ["histories", "fault_sequences", "inputs"],
  "All goal functions with non-finite values injected at any evaluation, all velocity rules, pauses, aborts and resumptions at any iteration, repeated runs.",
  "Unit tests compare two particles once; no stable test runs a swarm end to end, so accumulation over iterations, ordering against NaN/infinity and resumption are never exercised.",
  [PS], [m("compare_floats ordering, update_best_particle, find_best_particle", PS), m("reset at the start of a run", PS + ":renew_swarm")],
  ["get_best_solution in loggers after each iteration", "results of find_min and next_iterations"])

prop("C03", "Genetic best and worst describe the current generation; elitism holds",
  "After every completed iteration that leaves a non-empty generation, the best solution reported by the genetic algorithm has the lowest fitness among the living generation and the worst has the highest, a NaN fitness being neither while any other value is present. With the standard selection (non-finite fitness killed, population limited to at least one by killing the worst) the reported best equals the lowest finite value the goal function has returned in the run, so it never gets worse from one iteration to the next.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "All fitness sequences incl. ties, NaN and infinities, all sizes of population and limit, all random streams, pauses and repeated runs.",
  "Tests only look at the end result on smooth functions where losing the best individual is made up for by later generations.",
  [G, SEL], [m("update_best_worst_individuals with NaN-aware comparators", G), m("LimitPopulation / kill_worst", SEL), m("KillFitnessNaN", SEL)],
  ["Population::get_best / get_worst in user components", "get_best_solution in loggers", "find_min result"])

prop("C04", "Limiting the population kills exactly the surplus worst individuals",
  "Applying the population limit leaves exactly min(living, limit) individuals alive, whichever individuals were already dead, and never kills an individual that is strictly better than one it keeps (NaN counts as worst). Individuals already dead stay dead, nothing happens when the limit is not exceeded, and killing a requested number of the worst individuals kills exactly that many of the living.",
  ["inputs", "histories", "fault_sequences"],
  "All fitness multisets and orders (ties, NaN, infinities), all patterns of already killed individuals, all limits and counts up to the number of living individuals, over evolving generations.",
  "No test looks at a selection at all; the integration tests only see that an optimum is eventually found.",
  [SEL], [m("LimitPopulation::kill", SEL), m("kill_worst", SEL)],
  ["Individual::is_alive before and after Selection::kill", "Population::len_alive"])

prop("C05", "A bounded search never evaluates a point outside its box",
  "When a swarm ends its post-move corrections with the boundary correction (or random teleport after it), and when the genetic algorithm creates individuals in the intervals and filters children with the interval check before birth, the goal function is never called with a coordinate that is non-finite or outside the given closed intervals, initial points included, and every reported solution lies inside them. This holds for every random stream, every velocity (NaN, infinite or huge ones included) and every goal value. With the interval check used as a selection instead, no individual outside the intervals survives a generation.",
  ["inputs", "fault_sequences", "configurations", "histories"],
  "Both algorithms; f32 and f64; interval shapes from adjacent floats to 1e30 wide; all operators; goal and velocity faults; random stream stuck at extremes.",
  "Tests use a handful of fixed coordinates far from the interval ends; random streams at the ends of their range, NaN/inf velocities and genes from bit-level operators are not sampled.",
  [PM, IN, CR, PB, SELV, TO, PS, G],
  [m("MoveToBoundary, RandomTeleport", PM), m("post-move applied to initial coordinates", PS + ":renew_swarm"), m("CheckChromoInterval", PB + ", " + SELV), m("RandomCreator, RandomVectorCreator", CR + ", " + TO)],
  ["arguments of Goal::get", "reported solutions"])

prop("C06", "A generation loses, duplicates and re-evaluates nobody",
  "In every genetic iteration each family named by the pairing is crossed once with exactly the named members of the current generation in the named order, each child is mutated once, the pre-birth steps see and may change the list of mutants one after another, and each chromosome left is evaluated exactly once and becomes one living individual with that fitness. All configured selections then run once each in order on the old generation plus the newborns, and the next generation is exactly the individuals still alive, with chromosomes and fitness unchanged and the iteration number one higher.",
  ["histories", "configurations", "inputs"],
  "All populations, pairings (0..n families of 0..k members), crossings with 0..m children, mutations, pre-birth and selection lists, random streams, component replacement between iterations, pauses.",
  "Tests observe only the final best solution; dropping, duplicating, re-evaluating or mixing up individuals leaves them passing as long as the search converges.",
  [G], [m("next_iterations, run_pairing, append/push, remove_dead", G)],
  ["calls to Pairing, Cross, Mutation, PreBirth, Selection, Goal and Logger implementations"])

prop("C07", "A swarm iteration moves every particle exactly once by its own velocity",
  "In every particle swarm iteration each particle gets one new velocity from the velocity rule, which is passed through the velocity corrections in order, kept as the particle's velocity for the next iteration, and added to the particle's coordinates; the sum passes through the post-move corrections in order, is evaluated exactly once and becomes the particle's position and value. Initial positions pass through the post-move corrections before their single evaluation; the number of particles never changes, initial positions and velocities are paired in order, and the iteration number rises by one.",
  ["histories", "configurations", "inputs", "fault_sequences"],
  "All swarm sizes and dimensions, velocity rules (user-supplied ones included), lists of corrections, goal faults, pauses and repeated runs.",
  "No stable test runs the swarm loop; unit tests only call move_to on a single particle.",
  [PS], [m("next_iterations, renew_swarm, move_to, set_velocity", PS)],
  ["calls to VelocityCalculator, PostVelocityCalc, PostMove, Goal and Logger implementations", "AgentsState::get_agents"])

prop("C08", "Velocity rules compute their documented equations",
  "Each velocity rule (classic, canonical, inertia with constant or linear coefficient, negative reinforcement) yields, in every dimension, the value of its documented equation for coefficients drawn independently and uniformly between 0 and 1, where personal best and worst, current best and worst, and global best and worst are those of the run's actual history and the velocity is the particle's own previous (corrected) one, all of it also after an abort and resumption. The linear inertia coefficient falls linearly from its maximum at iteration 0 to its minimum at the given iteration and stays at the minimum afterwards. A clone of a particle serves a rule like the particle itself.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "All histories of positions and values (non-finite goal values included), parameters, dimensions, f32 and f64, random streams including ones stuck at 0, 1 or any constant.",
  "There is no unit test of any velocity rule; whether a coefficient multiplies the right difference cannot be seen from a converged result.",
  [VC, PS], [m("calc_new_velocity of the four rules", VC), m("LinearInertia, ConstInertia", VC), m("personal best/worst in move_to, global best/worst updates", PS)],
  ["result of VelocityCalculator::calc_new_velocity during a run", "Inertia::get"])

prop("C09", "Velocity limiters cap the velocity and change nothing else",
  "After the modulus limiter the velocity's length never exceeds the maximum (up to rounding), its direction is kept, and a velocity within the limit is passed on unchanged; after the per-dimension limiter no component exceeds its own maximum in absolute value, clipped components keep their sign and components within the limit are unchanged. This holds for every velocity a run produces whose squared length is representable, and consequently no particle ever moves further than the limit in one iteration when no later correction changes its position.",
  ["histories", "inputs", "configurations"],
  "All velocities arising in runs (diverging rules included), limits from tiny to huge, 0..n dimensions, f32/f64, limiters combined in any order.",
  "Unit tests check two or three hand-picked vectors.",
  [PV, PS], [m("MaxVelocityAbs, MaxVelocityDimensions", PV), m("post_velocity_calc chain", PS)],
  ["PostVelocityCalc::correct_velocity input/output during a run", "distance between successive positions"])

prop("C10", "A run stops exactly at the first check at which its criterion holds",
  "An optimizer asks its stop checker before every iteration and, once it answers yes, performs no further iteration or goal evaluation. An iteration limit is met at exactly that iteration number, a threshold as soon as the best value is not above it, and the no-change criterion once the best value has stayed within the given delta of its last considered value for more than the given number of iterations of the current run; ANY holds when at least one member criterion holds and ALL when every one does, independently of the members' order. Earlier runs of the same optimizer have no influence.",
  ["histories", "inputs", "configurations"],
  "All trajectories of the best value (absent, constant, drifting, improving, worsening), all trees of criteria, histories of runs, pauses, resumptions and re-runs with the same checker object.",
  "Stop checkers have no unit tests; integration tests only run them once, so state carried between runs, evaluation order and off-by-one iterations are not visible.",
  [SC, G, PS], [m("MaxIterations, Threshold, GoalNotChange, CompositeAny, CompositeAll", SC), m("main loops", G + ", " + PS)],
  ["StopChecker::can_stop answers", "iteration number at the end of a run", "number of goal evaluations"])

prop("C11", "Pausing and resuming does not change the run",
  "Stopping a run at arbitrary iterations and resuming it - with the same stop checker or a replaced one, replacing components by identical ones at a pause, any number of times - gives exactly the same evaluations, the same best solution after every iteration and the same final result as the uninterrupted run on the same random stream.",
  ["histories", "schedules", "configurations"],
  "Both algorithms, all real components, all pause points (before the first iteration included) and numbers of pauses, all random streams.",
  "No test resumes a run; comparing two executions needs control of the random stream, which tests do not have.",
  [G, PS, LIB], [m("state kept in the optimizer between next_iterations calls", G + ", " + PS)],
  ["sequence of Goal::get calls", "get_best_solution per iteration", "results of find_min/next_iterations"])

prop("C12", "A reused optimizer runs like a fresh one",
  "Starting a new run on an optimizer that has already been used - finished, paused, or aborted by a panic in a user component at any point - produces exactly the run a newly built optimizer would produce on the same random stream: same evaluations, iteration numbers starting from zero, same stops and same result. Nothing of the earlier runs (individuals, best or worst, stop-checker state) leaks into it.",
  ["histories", "crash_points", "fault_sequences"],
  "Histories of earlier runs, resumptions and aborts at any user callback; both algorithms; all stop checkers and components.",
  "One test runs the same optimizer twice but compares nothing between the runs; aborts are never tested.",
  [G, PS, SC], [m("Population::reset, Swarm::reset / renew_swarm", G + ", " + PS), m("per-run state of GoalNotChange", SC)],
  ["sequence of Goal::get calls, logger calls and results of the new run"])

prop("C13", "Loggers see the run through a fixed protocol",
  "Every configured logger receives start once at the beginning of a run, then for each (re)start of iterations one resume, one call per completed iteration with the iteration number increasing by one from zero, and one finish, in that order and each on every logger in the configured order. The state shown at finish is exactly the result that is then returned, the state shown per iteration is that of the completed iteration, and nothing is logged after finish until the next run or resumption.",
  ["histories", "configurations"],
  "Both algorithms, 0..n loggers, all histories of runs, resumptions and logger replacement, zero-iteration runs included.",
  "The only logger assertions in the tests are on the number of results after one or two complete runs.",
  [G, PS, LG], [m("logger loops in find_min and next_iterations", G + ", " + PS)],
  ["Logger callbacks and the AlgorithmState they are given"])

prop("C14", "Log output is complete and exact through interrupted and short writes",
  "Whatever way the writer accepts data (partial writes, interruptions, at any call), the bytes written by the verbose and result loggers are exactly the specified text: one line per completed iteration with a solution, holding iteration number, coordinates and goal value at the requested precision in order; and after every stop the solution, its goal value and the iteration count, or a statement that no solution was found. If the writer fails permanently the failure reaches the caller and what was written is a prefix of the expected text; it is never skipped silently.",
  ["fault_sequences", "histories", "inputs"],
  "All sequences of short writes, EINTR and permanent errors (full disk, zero-length write) at any write call, both algorithms, all precisions, solutions incl. non-finite values, runs and resumptions.",
  "No test attaches a writer to a logger.",
  [LG], [m("VerboseLogger::next_iteration, ResultOnlyLogger::finish, TimeLogger::finish via writeln!", LG)],
  ["bytes received by the io::Write the user passed in", "panic reaching the caller"])

prop("C15", "The time logger reports the true elapsed time of the (re)started run",
  "After every stop the time logger writes the whole milliseconds that have elapsed since the latest start or resumption of the run, and nothing else. Steps of the wall clock in either direction, pauses between resumptions of any length, long runs (days) and stalled clocks do not falsify it. Short and interrupted writes neither lose nor repeat a part of it, and a writer that fails for good makes the call fail: what it received is a prefix of the text due.",
  ["fault_sequences", "histories"],
  "All clock behaviours the system may show (wall-clock jumps, slow and long evaluations, sub-millisecond durations, standing clock), all sequences of writer faults, and histories of runs and resumptions.",
  "No test uses the time logger; tests cannot control the clock.",
  [LG], [m("TimeLogger::resume/finish on a monotonic instant", LG)],
  ["text written by TimeLogger under a simulated clock"])

prop("C16", "Statistics keep exactly one aligned record per run",
  "Statistics gathered over any history of runs hold one result and one convergence row per started run, under the same index: the result is the solution the run returned when it last stopped, after its last pause (none if it was aborted before it ever stopped), and entry k of the row is the best solution after iteration k+1, pauses leaving no trace. Collecting may also begin at a resumption, which then counts as a run of its own. Counted goal calls equal the calls the goal function received, and counting passes arguments and values through unchanged.",
  ["histories", "crash_points", "configurations"],
  "Histories of runs, pauses, resumptions, aborts at any evaluation, late attachment of the logger, both algorithms.",
  "Tests cover one and two uninterrupted runs; paused, resumed and aborted runs are not covered.",
  [ST, G, PS], [m("StatisticsLogger start/next_iteration/finish, Statistics", ST), m("GoalCalcStatistics, CallCountData", ST)],
  ["Statistics::get_results, get_convergence, get_run_count", "CallCountData::get_call_count"])

prop("C17", "Parallel campaigns: workers do not interfere and merging loses nothing",
  "Optimizers running concurrently in different threads, or stepped alternately in one thread, each behave exactly as if run alone on their own random stream, under every interleaving and whichever other workers crash or stall. Uniting their statistics and call counts in any arrival order keeps every run exactly once with result, convergence row and call count aligned in arrival order, and run count, average and sample standard deviation of goal and solution, average convergence, success rate and average call count computed from the union equal those recomputed from the individual runs (failed runs count only as not successful).",
  ["schedules", "histories", "crash_points", "fault_sequences"],
  "All interleavings of worker threads at random draws, goal calls, logger calls and clock reads; worker crashes and stalls; all arrival orders and merge trees; both algorithms.",
  "The one multi-threaded test runs under whatever schedule the OS picks and asserts a success rate only; merging is unit-tested on one-element statistics.",
  [ST, G, PS], [m("no shared state between optimizers; thread-local random streams", G + ", " + PS), m("Statistics::unite, CallCountData::unite, StatFunctions*", ST)],
  ["per-worker statistics vs. a solo run", "united statistics and aggregates"])

prop("C18", "Random genetic operators only recombine what they are given",
  "For every random stream: bit mutation changes a gene in at most the configured number of bit positions (with the same parity) and can reach every bit; vector mutation keeps the length, mutates genes with exactly the configured percentage (0 never, 100 always) and leaves the other genes untouched; bitwise crossing yields one child made of one parent's upper bits and the other's lower bits with every cut position possible; exponent crossing yields one child whose mantissa, exponent and sign are each recombined from the parents' in this way, independently of each other; vector crossing produces the child gene by gene from the genes at the same position.",
  ["inputs", "fault_sequences"],
  "All parent genes (finite, non-finite, zeros, extreme), f32 and f64, vector lengths, probabilities, bit counts and random streams including stuck and extreme ones.",
  "Doc tests call the deterministic crossing helpers on a few constants; the random operators have no tests.",
  [MU, XO], [m("BitwiseMutation, VecMutation", MU), m("CrossBitwise, FloatCrossExp, VecCrossAllGenes", XO)],
  ["inputs and outputs of Mutation::mutation and Cross::cross under a simulated random stream"])

prop("C19", "Pairing selects valid families and tournaments are won by the best",
  "For every population and random stream, random pairing yields half as many pairs as there are individuals and the tournament yields the configured number of families of the configured size, all members being valid indices of the current population and every individual being eligible. A tournament member is the best of one plus the configured number of rounds of uniformly drawn individuals, NaN fitness losing against any other. An empty population yields no families instead of a failure.",
  ["inputs", "histories", "fault_sequences"],
  "All populations (empty, single, ties, NaN), settings, and random streams including stuck and extreme ones.",
  "Pairing has no unit tests; convergence hides a wrong selection pressure.",
  [PA], [m("RandomPairing::get_pairs, Tournament::get_pairs", PA)],
  ["result of Pairing::get_pairs during a run"])

prop("C20", "Random initialization and teleport stay in their intervals",
  "Random creators of individuals, coordinates and velocities return exactly the requested number of vectors of the requested dimension with every component drawn independently from, and never outside, its own closed interval (uniformly spread over it for floating-point components); zero velocities are all zero. The random teleport replaces all coordinates by a point spread over its intervals with exactly the configured probability (0 never, 1 always) and otherwise changes nothing. Invalid intervals or probabilities are refused at construction or first use. (Intervals of finite width; integer intervals within plus or minus 2^53.)",
  ["inputs", "fault_sequences"],
  "f32, f64 and integer genes, interval shapes, sizes, probabilities, random streams including stuck and extreme ones.",
  "Tests draw 1000 ordinary samples from three f64 intervals; teleport and the initializers are untested.",
  [CR, IN, TO, PM], [m("RandomCreator", CR), m("RandomVectorCreator", TO), m("RandomCoordinatesInitializer, RandomVelocityInitializer, ZeroVelocityInitializer", IN), m("RandomTeleport", PM)],
  ["results of Creator::create, get_coordinates, get_velocity, post_move under a simulated random stream"])

prop("C21", "A run without survivors or solutions ends cleanly",
  "When a genetic population dies out, or starts or stays empty, the run goes on without failing until its stop criterion is met, with the expected number of iterations, and reports no solution if none ever survived a generation. Resuming an optimizer that was never started, and running a swarm without particles, likewise end at the stop criterion and report no solution. A later run on the same optimizer that can succeed does.",
  ["fault_sequences", "histories", "configurations"],
  "Goal functions turning non-finite at any evaluation, filters rejecting everything, limits of zero, empty creators; real pairings and selections; both algorithms.",
  "No test lets a population die out.",
  [G, PA, SEL, PS], [m("Uniform range over population size in pairings", PA), m("next_iterations", G + ", " + PS)],
  ["result of find_min/next_iterations, absence of panics, iteration number"])

prop("C22", "Filters reject exactly the offending individuals",
  "The non-finite filter kills exactly the individuals whose fitness is NaN or infinite; the interval selection kills exactly those with a gene that is non-finite or outside its closed interval; the interval pre-birth check removes exactly such chromosomes and keeps the others unchanged in order. Nobody else's state changes, no dead individual is revived, and combining filters in any order gives the same survivors.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "All populations and chromosome lists (values on, just inside and just outside the interval ends, NaN, infinities, signed zeros), f32/f64, filter orders, over evolving generations with goal faults.",
  "Selections and pre-birth checks have no unit tests.",
  [SEL, SELV, PB], [m("KillFitnessNaN", SEL), m("CheckChromoInterval (selection)", SELV), m("CheckChromoInterval (pre-birth)", PB)],
  ["Individual::is_alive before/after Selection::kill", "list before/after PreBirth::pre_birth"])

prop("C23", "Deterministic crossing helpers compute their documented function",
  "The public single-point crossing functions return, for every pair of parents and every cut position from 1 to the width minus 1, the first parent's bits above the cut and the second parent's bits below it; the arithmetic and geometric mean crossings return the mean of the parents.",
  ["inputs"], "All parents and cut positions of all integer and float widths.",
  "Doc tests sample a few constants.",
  [XO], [m("cross_u64 ... cross_f64, CrossMean, FloatCrossGeometricMean", XO)], ["function results"])

prop("C24", "The test functions have their documented values and minima",
  "Paraboloid, Schwefel, Rastrigin and Rosenbrock return, for every point of any positive dimension, the value of their documented formula, with the documented minimum at the documented point.",
  ["inputs"], "All points and dimensions, f32 and f64.",
  "Doc tests evaluate one point each.",
  [TF], [m("paraboloid, schwefel, rastrigin, rosenbrock", TF)], ["function results"])

prop("C25", "Neither observers nor clocks influence a run",
  "Attaching, replacing or removing the library's loggers, statistics collectors and the call-counting goal, reading the state shown to a logger as often as one likes, output trouble that is recovered from, and the speed and jumps of the clocks leave the course of an optimization as it is: on the same random numbers and goal values every evaluated point, every stop check with the state it is shown, every population shown to a component and every result are the same as without them.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "Both algorithms, all component combinations, any mix of observers attached at any pause, goal faults and aborts, transient write failures, slow evaluations, wall-clock jumps.",
  "Tests look at results of random runs, which no two executions share; the influence of an observer drowns in the randomness.",
  [G, PS, LG, ST], [m("find_min, next_iterations: logger calls", G + ", " + PS), m("VerboseLogger, ResultOnlyLogger, TimeLogger", LG), m("StatisticsLogger, GoalCalcStatistics", ST)],
  ["evaluated points and results of an observed run vs. the bare run on the same random stream"])

prop("C26", "Only the order of goal values matters, and units never do",
  "Both algorithms use goal values only to compare them: replacing the goal function by a strictly increasing transformation of it (non-finite values kept, equal values kept equal, values however close or far) leaves every evaluated point, every generation or swarm and every reported point as it is, and transforms the reported values. A swarm is free of units: multiplying its intervals, velocity limits and the arguments of its goal function by a power of two multiplies every point it evaluates and reports by it, exactly, as long as no number over- or underflows.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "Goal functions of all kinds with ties and non-finite values, shifts and local stretches of the number line from one unit in the last place to hundreds of orders of magnitude, sign changes, scales 2^-45..2^45, both algorithms with the library's components and a stop criterion on the iteration number; aborts and resumptions.",
  "Tests use a few goal functions of ordinary magnitude and accept any run that converges.",
  [G, PS, SEL, PA, VC, PV, PM], [m("Population::update, Population ordering, LimitPopulation, Tournament", G + ", " + SEL + ", " + PA), m("Swarm, Particle best update, velocity rules, limiters, moves", PS + ", " + VC + ", " + PV + ", " + PM)],
  ["evaluated points, populations shown to components, results of two runs on the same random stream"])

prop("C27", "The algorithms solve simple problems and recover from faults",
  "With the documented components and settings in the manner of the examples, both algorithms find the minimum of the test functions in few dimensions to within a modest bound in a few hundred iterations in nearly all runs, for f32 and f64, and they still do so when the goal function is NaN or infinite in a part of the space away from the minimum, when early evaluations return NaN or infinities in bursts (for a swarm: all of its initial ones; for a genetic population: leaving survivors), or when evaluations abort the run, which is then resumed or started again. Once such faults stop, progress resumes.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "Every velocity rule, both crossing families, both pairings, the velocity limiters, move corrections and selections; sampled random streams and fault bursts.",
  "The tests optimize fault-free, with one configuration per function, large populations and thousands of iterations.",
  [G, PS, XO, MU, PA, SEL, VC, PV, PM], [m("find_min, next_iterations", G + ", " + PS), m("GoalFromFunction", "optlib/src/lib.rs"), m("Threshold, MaxIterations, CompositeAny", SC)],
  ["success rate of small optimizations against a bound on the goal value"])

prop("C28", "Everything a component is shown about the agents is one current state",
  "Whenever a component looks at the population or swarm, all ways of looking agree: iteration, listed agents, access by index and their clones show the same agents in the same order with the same points, values and life, the length and the number of the living count exactly them, and every interface gives the same iteration number and best. What is shown is current: exactly the survivors of the last completed generation, the individuals born since and the particles where they now are, each with the value of the current run; a kill is visible at once and to every later selection; nothing of an earlier run is shown as individual, best or worst.",
  ["histories", "fault_sequences", "schedules", "configurations"],
  "Populations and swarms of any size, empty ones included; any chain of selections, births, deaths; pauses, re-runs, aborts by panics in any component and resumption after them.",
  "Tests look at hand-built populations through one or two of the accessors, never between the steps of a running algorithm or after an abort.",
  [G, PS], [m("Population: iter, iter_mut, Index, get_agents, len, len_alive, get_best, get_worst, get_iteration, reset", G), m("Individual: Agent, Clone, kill, is_alive", G), m("Swarm: len, get_agents; Particle: Agent, Clone", PS)],
  ["accessors of Population, Individual, Swarm, Particle as seen by components"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
