#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so that they can be edited readably)."""
import json, os
P = []
OC = "stochopy/optimize/_common.py"; OH = "stochopy/optimize/_helpers.py"
CM = "stochopy/optimize/cmaes/_cmaes.py"; CC = "stochopy/optimize/cmaes/_constraints.py"
PS = "stochopy/optimize/cpso/_cpso.py"; PC = "stochopy/optimize/cpso/_constraints.py"; PSO = "stochopy/optimize/pso/_pso.py"
DE = "stochopy/optimize/de/_de.py"; DC = "stochopy/optimize/de/_constraints.py"; DS = "stochopy/optimize/de/_strategy.py"
NA = "stochopy/optimize/na/_na.py"; VD = "stochopy/optimize/vdcma/_vdcma.py"
SC = "stochopy/sample/_common.py"; SH = "stochopy/sample/_helpers.py"
HM = "stochopy/sample/hmc/_hmc.py"; MC = "stochopy/sample/mcmc/_mcmc.py"
FB = "stochopy/factory/benchmark.py"; BC = "stochopy/_common.py"
OPT = [CM, PS, PSO, DE, NA, VD]; SMP = [HM, MC]

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                  mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Reported function value is the objective at the reported point",
  "Whenever an optimizer or sampler hands a solution to the user, in its result or in the state passed to the callback, the reported function value is the objective evaluated at exactly the reported point, in the user's coordinates. The only exception is the documented penalization mode of CMA-ES and VD-CMA, where it is the objective at the reported (repaired) point plus that same candidate's penalty.",
  ["inputs", "histories", "configurations"], "every objective, bounds, seed, option combination of the eight methods, every iteration at which the run ends or the callback is called",
  "The tests compare x with pinned values for one 2-D problem and never look at fun, nor at callback states; the claim ranges over every objective and every iteration.",
  OPT + [OC] + SMP, [("population and fitness arrays are updated together under one index", OC + " selection_sync/selection_async"), ("candidate and value taken with the same sort index", CM + " cmaes"), ("sample and energy rows written together", MC + " sample")],
  [("pbest/pbestfit", "best point of each individual and its value", PS), ("xall/funall", "chain and energies", MC)], ["returned result", "callback state"])

p("C02", "The best point found so far is never lost",
  "For DE, PSO, CPSO and NA the function value reported in every callback state and in the result is never larger than any objective value evaluated up to that moment, whatever the updating mode, constraint handling or competitive restarts. For MCMC and HMC it is the smallest value in the chain generated so far, the initial sample included.",
  ["inputs", "histories", "configurations"], "every objective without NaN values, every run length, updating mode, constraint, competitivity; every callback moment",
  "Tests only look at the end point of fifteen short seeded runs on Rosenbrock; elitism quantifies over every objective and every intermediate state.",
  [PS, PSO, DE, NA, OC] + SMP, [("replace only if not worse, best taken by argmin over personal bests", OC + " selection_sync"), ("best replaced only if not worse", OC + " selection_async"), ("restart resets only the worst individuals", PS + " restart"), ("running minimum", MC + " sample")],
  [("gbest/gfit", "global best", PS), ("imin/fmin", "best sample", MC)], ["returned result", "callback state"])

p("C03", "The recorded history is complete and faithful",
  "With return_all, the history in the result and in each callback state has exactly one row per iteration performed so far and every row has been recorded. Row k of an optimizer holds the leading fraction (verbosity) of the population of iteration k, as shown to the callback and in the user's coordinates, or that generation's best individual when verbosity is 0, together with the objective values of exactly those individuals (penalized values in penalization mode); row k of a sampler holds sample k and its objective value.",
  ["inputs", "histories", "configurations"], "every objective, run length (early stops included), population size, verbosity, method",
  "The tests only check that recorded points respect the bounds in a few runs; function-value histories, verbosity and partial histories are never compared with anything.",
  OPT + SMP, [("row it-1 written once per iteration with one slice of population and fitness", DE + " de"), ("prefix [:it] returned", PS + " cpso"), ("row i written for every sample", MC + " sample")],
  [("xall/funall", "history arrays", DE)], ["returned result", "callback state"])

p("C04", "Bound constraints keep every point inside the feasible box",
  "When a constraint is selected (DE 'Random', PSO/CPSO 'Shrink', CMA-ES/VD-CMA 'Penalize'), and always for NA, every point passed to the objective, reported, recorded or shown to the callback lies within the bounds up to rounding, provided a user-supplied initial guess does. With 'Reject', every sample of an MCMC or HMC chain that starts inside the bounds stays inside, and proposals inside the bounds can be accepted.",
  ["inputs", "histories", "configurations"], "all bounds with lower <= upper (lower < upper except for NA and DE), all objectives, all seeds and iterations, every constraint name",
  "Tests check one square box, one problem, a few seeds; 'Reject', one-sided violations of a single coordinate, degenerate bounds and asymmetric boxes are not exercised.",
  [DC, PC, CC, CM, VD, NA, SC, PS, DE, MC, HM], [("resampling of infeasible components", DC + " Random"), ("velocity shrinking", PC + " Shrink"), ("clipping in standardized space", CC + " Penalize"), ("unit hypercube in normalized space", NA + " mutation"), ("feasibility test", SC + " in_search_space")],
  [], ["argument of the objective", "returned result", "history", "callback"])

p("C05", "Seeded runs are reproducible",
  "Two calls with the same arguments and the same seed (0 included) return the same result whatever ran before in the process: every random draw of the call comes from the generator the seed initializes and happens after seeding, and no other source of variation (clock, process state, uninitialized memory, data kept from an earlier call) can reach the result. Without a seed the generator's state is used as it is, never reset to a fixed one.",
  ["inputs", "histories", "configurations"], "every method, option combination, problem, and history of earlier calls in the same process",
  "The pinned tests use seed 42 in a fresh run; they cannot show the absence of draws before seeding, of uninitialized reads, or of state carried over between calls on paths they do not take.",
  OPT + SMP + [OC, DC, CC], [("np.random.seed(seed) when seed is not None, before the first draw", DE + " minimize"), ("all draws through numpy's global generator", OC + " lhs")],
  [("numpy global RNG", "only source of randomness", "all modules")], ["returned result"])

p("C06", "Parallel backends change speed, never results",
  "Evaluating a population with joblib ('threading', 'loky') or MPI, on any number of workers or ranks, yields the same vector of values in the same order as serial evaluation, each individual evaluated exactly once; so a parallel run returns the result of the serial run with deferred updating. Parallel evaluation always forces deferred updating, an unknown backend requested for parallel work is refused, and all MPI ranks return the same result.",
  ["schedules", "inputs", "configurations"], "all population sizes, worker and rank counts (also not dividing the population), objectives (negative values included), backends, methods, with or without seed",
  "Tests run two threads and a single MPI rank on one problem; loky, several ranks, ranks not dividing the population and unseeded multi-rank runs are never executed.",
  [OC] + OPT, [("one wrapper per backend around the objective", OC + " optimizer"), ("sync forced for workers not in {0,1} or MPI", PS + " minimize"), ("disjoint strided shares summed by Allreduce", OC + " optimizer"), ("rank-common random state", OC + " optimizer")],
  [], ["vector returned by the evaluation wrapper", "returned result on every rank"])

p("C07", "The caller's data is never modified",
  "No call modifies an object supplied by the caller: initial guess, bounds, step sizes, extra arguments, options dictionary, or the points given to a benchmark function. Calling twice with the same objects therefore gives the same problem twice.",
  ["inputs", "histories", "configurations"], "all methods, all option combinations, arrays of any type passed for x0, bounds, stepsize, args, options; every benchmark function",
  "The tests never pass an array they look at again; aliasing shows only for particular input types (float arrays) and option combinations.",
  OPT + SMP + [OH, SH, FB, OC], [("copies before in-place updates", PS + " cpso"), ("fresh arrays from arithmetic", NA + " na")], [], ["caller-owned arrays after the call"])

p("C08", "The callback is called exactly once per iteration and only observes",
  "A callback is called exactly once per iteration performed, the first one included, with states whose nit runs 1, 2, ..., nit of the result; each state has exactly the fields of the result other than success, status and message, and the last state agrees with the result. The population (or sample) passed along is the one of that iteration in the user's coordinates, and passing a callback or asking for the history never changes what is computed.",
  ["inputs", "histories", "configurations"], "all methods, run lengths, early stops, options",
  "Tests count calls for default options without early stop; the content of the states and the effect of observing are never compared.",
  OPT + SMP, [("call after initialization and at the end of every loop iteration", PS + " cpso"), ("call inside the generation loop", CM + " cmaes")], [], ["callback invocations"])

p("C09", "Iteration and evaluation counters are exact",
  "The reported number of function evaluations, in the result and in each callback state, equals the number of objective calls made so far; each iteration of an optimizer evaluates exactly popsize candidates, and nit equals the number of generations evaluated (samplers: samples generated, always maxiter at the end). nit never exceeds maxiter, for any maxiter >= 1.",
  ["inputs", "histories", "configurations"], "every method, popsize, maxiter >= 1, run length, updating mode, constraint, user-supplied gradient or not",
  "No test looks at nfev or nit; off-by-one errors show only for particular run lengths (maxiter 1) or options.",
  OPT + SMP, [("nfev = it * popsize", PS + " cpso"), ("counting wrapper", HM + " count"), ("nfev += popsize", CM + " cmaes")], [("it", "iteration counter", PS)], ["returned result", "callback state", "calls to the objective"])

p("C10", "Status code, success flag and message agree",
  "Every optimizer result carries a status code from the documented table, the message documented for exactly that code, and a success flag that is true exactly for the non-negative codes. A run never ends without a status, and every code the library can produce has a message.",
  ["inputs", "histories", "configurations"], "every way a run can end, all optimizers",
  "Tests never read status, success or message, and most status codes need rare numerical situations to occur.",
  OPT + [OC], [("messages table", OC + " messages"), ("success=status >= 0", PS + " cpso"), ("loop leaves only with a status", CM + " cmaes")], [], ["returned result"])

p("C11", "Runs stop exactly when the documented criteria say so",
  "A run ends with status 1 or 0 only if the best reported value is at or below ftol (status 0 also requires that the best point moved by at most xtol in the last update, measured in the coordinates the method works in; with CMA-ES/VD-CMA: the mean), and with status -1 only if maxiter iterations were performed. Conversely no optimizer starts another iteration once maxiter iterations are done, or once an update after the initial population has produced a new best value at or below ftol.",
  ["inputs", "histories", "configurations"], "every objective, xtol, ftol, maxiter, updating mode, and position inside the generation at which the criterion is met",
  "Tests use equal default tolerances that Rosenbrock never reaches in the pinned runs, so swapped, dropped or forgotten criteria go unnoticed.",
  OPT + [OC], [("stopping tests", OC + " selection_sync/selection_async"), ("convergence tests", CM + " converge"), ("status kept over the generation", PS + " pso_async")], [], ["returned result", "number of iterations"])

p("C12", "Every method is reachable by name and means the same either way",
  "minimize(method=name) and sample(method=name) run the algorithm published under that name in the package and give what calling it directly with the same arguments gives; an option left out behaves as its documented default passed explicitly. PSO is CPSO without competition, and every documented option of a method has an effect on the run.",
  ["inputs", "configurations"], "all eight methods, all documented options and values",
  "Tests dispatch by name with explicit options only; the direct functions, the defaults, and options without visible effect on one problem are not compared.",
  [OH, SH] + OPT + SMP, [("registry filled at import", OH + " register"), ("PSO delegates to CPSO", PSO + " minimize"), ("positional option tuples", PS + " minimize")], [], ["public functions"])

p("C13", "Malformed requests are refused before anything is evaluated",
  "A non-callable objective, callback or gradient, bounds that are not a two-column table, an initial guess, step size or population of the wrong shape or size, and algorithm parameters outside their documented ranges (inertia, cognitivity, sociability, competitivity, mutation, recombination, popsize, sigma, muperc, nrperc, perc, nleap, unknown updating, strategy, constraint or method names) raise an exception before the objective is called; values inside the ranges, end points included, are accepted.",
  ["inputs", "configurations"], "all option values on either side of and on the documented limits, all methods",
  "There is no test of invalid input or of parameters at the end points of their ranges.",
  OPT + SMP + [OH, SH], [("range checks at the top of each entry point", DE + " minimize"), ("constraint and strategy tables", DC)], [], ["public functions"])

p("C14", "The objective is always called as fun(x, *args) with x in user coordinates",
  "Every call of the objective, and of a user-supplied gradient, passes one point as a 1-D array with one entry per bound, in the user's coordinates, followed by exactly the extra arguments given; nothing else is ever passed. User-supplied initial guesses are the first points used: the initial population evaluated is the given one (population methods), the chain starts at it (samplers), and CMA-ES/VD-CMA sample around it.",
  ["inputs", "configurations"], "all methods, backends, updating modes, constraints, args tuples, initial guesses",
  "No test passes args, a gradient, or a population as initial guess.",
  [OC] + OPT + SMP, [("wrapper forwards *args", OC + " optimizer"), ("unstandardize/unnormalize before evaluation", NA + " na")], [], ["calls of the objective"])

p("C15", "Benchmark functions are their textbook formulas in every dimension",
  "Each benchmark function returns the value of its textbook definition for a point of any dimension and any values, given as an array or a plain sequence, as a pure function of the point.",
  ["inputs"], "all points in all dimensions",
  "Each function is tested at the single point (1, ..., 1) in dimension 10, where most coefficients, exponents and index offsets are invisible.",
  [FB], [("closed-form vectorized expressions", FB)], [], ["return value"])

p("C16", "Runs have no hidden side effects and never swallow exceptions",
  "Apart from advancing (or seeding, when asked) numpy's global random generator, no call changes process-wide state, prints, or touches files, and no library-level data is changed by a call. An exception raised by the objective, the gradient or the callback reaches the caller unchanged in serial runs, and worker pools are always released.",
  ["inputs", "fault_sequences", "histories"], "all methods and option combinations, an exception at any call of user code",
  "No test makes user code raise or inspects process state; effects on rarely taken paths are invisible to them.",
  OPT + SMP + [OC, OH, SH, BC], [("pool opened in a with statement", OC + " optimizer"), ("no exception handlers around user code", OC)], [], ["process state", "exceptions"])

p("C17", "Results are dictionaries with attribute access",
  "For every result object, reading, setting and deleting an attribute is reading, setting and deleting the item of that name; reading a missing name raises AttributeError, so hasattr and copying protocols work. The attribute listing is the list of fields, and the printed form shows every field except the bulky histories and never fails, even when there are none.",
  ["inputs", "histories"], "all sets of fields and sequences of operations on a result",
  "Tests only read x and xall from freshly returned results.",
  [BC, OH, SH], [("__getattr__ and aliases of the dict methods", BC + " BaseResult")], [], ["result object"])

p("C18", "Samplers accept proposals by the Metropolis rule",
  "MCMC accepts a feasible proposal exactly when a fresh uniform number is below exp(current value - proposed value), HMC when it is below exp(current total energy - proposed total energy) with kinetic energy half the squared momentum; both compare against the current state of the chain. An accepted proposal becomes the next sample with its own value, a rejected one repeats the current sample and value, and the acceptance ratio reported counts exactly the accepted proposals.",
  ["inputs", "histories", "configurations"], "all objectives, step sizes, chain lengths, constraints, gradients",
  "Two pinned best samples cannot show which acceptance probability was used on other energies, nor what happens on rejection or to the ratio.",
  SMP + [SC], [("log_alpha > log(rand)", MC + " sample"), ("Hamiltonian difference", HM + " sample")], [], ["chain", "accept_ratio"])

p("C19", "MCMC proposals perturb every coordinate in turn with the requested scale",
  "In each sweep MCMC perturbs consecutive blocks of coordinates that together cover every coordinate exactly once, whatever the dimension and perc, never touching the other coordinates of the proposal. The perturbation of a coordinate is a centred normal draw whose standard deviation is stepsize times half the width of that coordinate's bounds.",
  ["inputs", "configurations"], "all dimensions, perc in [0, 1], scalar or per-coordinate step sizes, bounds of different widths",
  "The single MCMC run tested has two dimensions with equal bounds and perc = 1: one block.",
  [MC], [("block loop over j", MC + " sample")], [], ["chain"])

p("C20", "HMC proposals follow a reversible leapfrog with the right gradient",
  "HMC moves the chain's current point and a fresh standard normal momentum with a symmetric leapfrog scheme: half momentum step, alternating full position and momentum steps scaled per coordinate by the same step size, half momentum step, every momentum step using the gradient at the then current position. The gradient is the user's, evaluated with the extra arguments, or the central difference over the requested absolute step in each coordinate.",
  ["inputs", "configurations"], "all objectives, gradients, step sizes, nleap, dimensions",
  "One pinned run in 2-D with default differences cannot tell per-coordinate scaling, the user-gradient branch, or the difference formula for other steps.",
  [HM], [("leapfrog loop", HM + " sample"), ("central differences", HM + " numerical_gradient")], [], ["chain"])

p("C21", "DE trial vectors follow the selected strategy",
  "A DE trial takes each coordinate from the mutant with probability recombination and at least one coordinate always, the others from the individual it competes with. The mutant is the strategy's formula with mutually different individuals drawn from the population without the current one (and the current best for best* strategies); the trial replaces its own individual only when it is not worse.",
  ["inputs", "configurations"], "all strategies, both updating modes, population sizes, mutation and recombination constants",
  "Pinned runs cover rand*bin/best*bin with one recombination constant; in immediate mode only rand1bin is run.",
  [DE, DS, OC], [("delete_shuffle", DE), ("strategy table", DS), ("crossover mask", DE + " de_sync/de_async")], [], ["evaluated candidates"])

p("C22", "Particles move by the PSO rule and restarts spare the best",
  "Each particle's velocity is inertia times its old velocity plus cognitivity and sociability times fresh uniform random numbers times its offsets from its own best and from the best known position, and its position advances by the (constraint-repaired) velocity. Competitive restarts occur only with competitivity, re-draw only the worst individuals, never all of them, uniformly inside the bounds with zero velocity and forgotten personal best; in the unconstrained mode positions are never altered otherwise.",
  ["inputs", "histories", "configurations"], "all coefficients, both updating modes, constraint handling, competitivity",
  "Pinned runs use one coefficient set with cognitivity equal to sociability, so exchanging or mixing them up passes every test.",
  [PS, PC, PSO], [("mutation", PS + " mutation"), ("restart", PS + " restart")], [], ["evaluated candidates"])

p("C23", "NA resamples around the best models of its whole archive",
  "NA keeps every model it has evaluated with that model's own value, and draws the next candidates around the nr best of them (nr = nrperc * popsize, at least one), distributing candidates over these in rotation. Each coordinate of a candidate is drawn uniformly from an interval that contains the current walk position and lies inside the bounds.",
  ["inputs", "histories", "configurations"], "all objectives, nrperc, popsize, dimensions, iterations",
  "One pinned run with nrperc = 0.5 in 2-D; the archive is not visible to tests.",
  [NA], [("archive Xall/Xallfit", NA + " na"), ("resampling", NA + " mutation")], [], ["evaluated candidates"])

p("C24", "CMA-ES and VD-CMA recombine the best candidates; penalties are sane",
  "Each generation ranks candidates by their (penalized) values, and moves the mean to the average of the muperc * popsize (at least one) best sampled candidates with positive, non-increasing weights of sum one. The penalty added in 'Penalize' mode is never negative, is zero for candidates inside the bounds, and treats lower and upper bounds symmetrically.",
  ["inputs", "histories", "configurations"], "all objectives, popsize, muperc, bounds, initial means, iterations",
  "Four pinned runs with muperc = 0.5; penalties and weights are internal and other parent numbers are never run.",
  [CM, CC, VD], [("weights and sorting", CM + " cmaes"), ("boundary penalty", CC + " Penalize")], [], ["evaluated candidates", "penalized values"])

p("C25", "Initial populations are Latin hypercube designs inside the bounds",
  "Without an initial guess, DE, PSO, CPSO and NA start from a Latin hypercube design: along every coordinate the popsize points fall into popsize different equal slices of that coordinate's bounds, the assignment of slices being an independent uniformly random permutation for each coordinate, and every point lies inside the bounds.",
  ["inputs", "configurations"], "all popsize, dimensions, bounds",
  "Only the downstream effect on one problem and population size is pinned.",
  [OC, PS, DE, NA], [("lhs", OC + " lhs")], [], ["initial population"])

p("C91", "Optimizers approach the global minimum of well-behaved objectives",
  "On benchmark problems, with enough iterations, each optimizer's result approaches the known global minimum.",
  ["inputs", "histories"], "all objectives of a class, all seeds", "Fifteen pinned runs sample it.", OPT, [("the algorithms as a whole", "stochopy/optimize")])
p("C92", "Sampler chains are distributed as exp(-objective)",
  "In the long run the samples of MCMC and HMC are distributed proportionally to exp(-objective).",
  ["inputs", "histories"], "all objectives and step sizes", "Nothing samples the distribution.", SMP, [("Metropolis-Hastings", MC + " sample")])
p("C93", "Parallel evaluation is faster than serial for expensive objectives",
  "With an expensive objective, wall-clock time shrinks with the number of workers.",
  ["schedules", "configurations"], "all workers and objectives", "Timing is not tested.", [OC], [("joblib/MPI", OC + " optimizer")])
p("C94", "Covariance adaptation stays numerically sound",
  "The covariance model of CMA-ES and VD-CMA stays finite and positive definite for every objective and run length, so sampled candidates are finite.",
  ["inputs", "histories"], "all objectives and run lengths", "Eight short pinned runs.", [CM, VD], [("covariance update and diagonalization", CM + " cmaes")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r) + "\n")
print(len(P))
