#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os, sys

P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Reported best individuals are the true best of what was evaluated",
     "After every generation the current best is one of the points evaluated in that generation paired with exactly the value the objective returned for it, and no point of that generation is better in the optimization mode; the overall best is the best of all generations so far, never gets worse, and is kept (point and value) when a later generation only ties it. "
     "The result returned on termination carries these same individuals and the current mean, and both bests are absent exactly while no generation has been evaluated completely.",
     ["inputs", "histories", "configurations"],
     "For every objective function, mode, dimension, population size, constraint set, sequential/parallel evaluation and any number of generations, including generations continued after a termination was reported.",
     "Unit tests feed History a handful of synthetic values; they never compare the bests returned by real runs with the log of evaluations actually made, over modes, ties, infinities, parallel evaluation and long histories.",
     ["src/history.rs", "src/lib.rs", "src/sampling.rs", "src/mode.rs"],
     [("sorting of evaluated points", "src/sampling.rs Sampler::sample_internal"),
      ("best tracking", "src/history.rs History::update / update_best_individuals"),
      ("result assembly", "src/lib.rs CMAES::get_termination_data")],
     [("current/overall best individual", "best points seen", "src/history.rs History")],
     ["CMAES::current_best_individual", "CMAES::overall_best_individual", "TerminationData", "objective function calls"])

prop("C02", "Every objective evaluation is made once, counted once, population-sized",
     "Each generation calls the objective function exactly population-size times (or until the first invalid value), once per sampled point, whatever the constraints and however the evaluation is scheduled. "
     "The reported number of function evaluations always equals the number of calls really made since creation, and the reported generation number is the number of generations completed.",
     ["inputs", "schedules", "histories", "configurations"],
     "For every configuration, every schedule of the parallel evaluation and every history of sequential, parallel and mixed generations, including generations aborted by an invalid value.",
     "Tests count calls for a few fixed configurations only and never for resampled, aborted or parallel generations; several existing accounting errors (fixed in /repo) passed all of them.",
     ["src/sampling.rs", "src/lib.rs", "src/state.rs"],
     [("evaluation loop and counter", "src/sampling.rs Sampler::sample_internal/sample/sample_parallel"),
      ("generation counter", "src/state.rs State::update")],
     [("function_evals", "number of objective evaluations", "src/sampling.rs Sampler")],
     ["CMAES::function_evals", "CMAES::generation", "objective function calls"])

prop("C03", "A seed determines the run, whatever the threads, printing or plotting",
     "Two optimizers built from the same options with the same seed produce bit-identical histories (evaluated points, means, step sizes, covariance matrices, bests, termination reasons) for the same objective, whether generations are advanced sequentially or in parallel, with any number of worker threads, alone or next to other running optimizers, and with printing, plotting or the seed's origin changed. "
     "The seed reported by an optimizer built without one reproduces its run, different seeds (and unseeded optimizers) give different runs. "
     "Only the parallel state update may change results, and only by rounding.",
     ["schedules", "inputs", "configurations"],
     "For every configuration and seed, over all thread interleavings of parallel evaluation, all pool sizes and all concurrently running optimizers.",
     "Tests compare a few fixed-seed runs single-threaded; interleavings, pool sizes, injected delays and concurrent optimizers are never exercised.",
     ["src/sampling.rs", "src/lib.rs", "src/state.rs", "src/parameters/mod.rs"],
     [("seeded RNG, order-preserving parallel map, stable sort", "src/sampling.rs Sampler::sample_internal"),
      ("seed choice", "src/lib.rs CMAES::new"),
      ("order of the state update", "src/state.rs State::update")],
     [("rng", "single source of randomness", "src/sampling.rs Sampler")],
     ["CMAES accessors after every generation", "objective function calls"])

prop("C04", "The search depends only on the ranking of objective values",
     "Replacing the objective by a strictly increasing transformation of it (preserving ties) leaves every sampled point, mean, step size and covariance matrix bit-identical for the same seed. "
     "Maximizing f and minimizing -f give the same trajectory, mirrored best values and the same termination reasons.",
     ["inputs", "histories"],
     "For every objective, every order-preserving transformation of its values, both modes, all weight settings and constraint sets.",
     "No test compares a run with the run of a transformed or mirrored objective; a value leaking into the update or a mode-dependent slip passes all fixed expectations.",
     ["src/sampling.rs", "src/state.rs", "src/mode.rs", "src/history.rs", "src/termination.rs"],
     [("rank-based selection", "src/sampling.rs sort, src/state.rs State::update"),
      ("mode-aware comparisons", "src/mode.rs")],
     None, ["objective function calls", "CMAES accessors"])

prop("C05", "Each generation performs exactly the documented CMA-ES state update",
     "From one generation to the next, the mean, step size and covariance matrix change as the (a)CMA-ES equations prescribe for the ranked points really evaluated and the reported strategy parameters: weighted recombination scaled by cm, cumulative step-size adaptation, and rank-one plus rank-mu (including rescaled negative weights) covariance update, up to floating-point rounding. "
     "This holds equally for the sequential and the parallel state update, and the sampling distribution's decomposition is refreshed from the covariance matrix only at the documented intervals.",
     ["inputs", "histories", "configurations"],
     "For every objective, dimension, population size, weight setting, cm, constraint set and every generation of a run.",
     "No test checks the update against the equations; end-to-end tests on easy functions still converge with wrong learning rates, dropped terms or stale decompositions.",
     ["src/state.rs", "src/matrix.rs", "src/parameters/mod.rs", "src/parameters/weights.rs"],
     [("state update", "src/state.rs State::update, rank_mu_update, rank_mu_update_parallel"),
      ("decomposition", "src/matrix.rs CovarianceMatrix")],
     [("evolution paths", "path_c, path_sigma", "src/state.rs State"),
      ("last_eigen_update_evals", "when the decomposition was last refreshed", "src/state.rs State")],
     ["CMAES::mean/sigma/covariance_matrix/eigenvalues", "objective function calls"])

prop("C06", "Strategy parameters and defaults follow the documented formulas",
     "For every dimension, population size, weight setting and cm, the reported parameters (mu, mu_eff, cc, c1, cmu, cs, damping, cm, recombination weights) equal the published formulas of the chosen variant, the positive weights sum to one and decrease with rank, and negative weights are bounded as prescribed. "
     "Every option that is set is reported back unchanged, and every option left unset takes its documented default.",
     ["configurations"],
     "For every dimension, population size, weight setting and combination of set and unset options.",
     "The two weight tests check signs and sums for fixed learning rates; the learning rates, mu_eff, and negative weight sums are compared with nothing, and each default only incidentally.",
     ["src/parameters/mod.rs", "src/parameters/weights.rs", "src/options.rs", "src/termination.rs"],
     [("parameter formulas", "src/parameters/mod.rs Parameters::new"),
      ("weights", "src/parameters/weights.rs InitialWeights"),
      ("defaults", "src/options.rs CMAESOptions::new, src/parameters/mod.rs TerminationParameters::from_options")],
     None, ["CMAES::parameters"])

prop("C07", "Candidates are independent normal samples of the current distribution",
     "The points of each generation are mean + sigma * y with y drawn independently from the normal distribution N(0, C) of the current decomposition: standardized samples show zero mean, unit variance, no correlation between coordinates, individuals, generations or seeds, and a normal marginal distribution. "
     "Under constraints they follow the same distribution conditioned on the feasible region, and sequential, parallel and parallel-update sampling draw from the same distribution.",
     ["inputs", "histories", "configurations"],
     "For every state of the distribution, dimension, population size, seed and constraint set.",
     "Tests only count the sampled points; a biased, correlated, truncated or reused stream, or a wrong transform, is invisible to them.",
     ["src/sampling.rs", "src/matrix.rs"],
     [("sampling", "src/sampling.rs Sampler::sample_internal, to_point"),
      ("transform", "src/matrix.rs CovarianceMatrix::transform")],
     None, ["objective function calls"])

prop("C08", "The search distribution stays a valid, consistent normal distribution",
     "After every generation that does not report a failure, the covariance matrix is exactly symmetric, the step size is non-negative and not NaN, the reported eigenvalues are positive and equal the spectrum of the covariance matrix as of the latest refresh, which is never older than the documented interval, and the reported axis ratio is the square root of their quotient. "
     "A new optimizer starts at generation 0 with the given mean and step size and the identity matrix, and a positive definite matrix is never reported as indefinite.",
     ["inputs", "histories", "configurations"],
     "For every objective, configuration and generation, including ill-conditioned, diverging and converged runs.",
     "One test decomposes a fixed 2x2 matrix; no test looks at the distribution reported along real runs.",
     ["src/matrix.rs", "src/state.rs", "src/lib.rs"],
     [("symmetrization and decomposition", "src/matrix.rs CovarianceMatrix::set_cov/update_eigendecomposition"),
      ("refresh interval", "src/state.rs State::evals_per_eigen_update"),
      ("axis ratio", "src/state.rs State::axis_ratio")],
     [("sqrt_eigenvalues", "square roots of the decomposition's eigenvalues", "src/matrix.rs CovarianceMatrix")],
     ["CMAES::covariance_matrix/eigenvalues/axis_ratio/sigma"])

prop("C09", "Constraints are honoured by resampling exactly as configured",
     "Without a resample limit every evaluated point satisfies the constraints; with a limit of k, infeasible points are redrawn in at most k rounds (only as many as are missing, keeping feasible points) and only points still missing after them may be infeasible. "
     "Bounds are inclusive in every coordinate, constraints are judged on exactly the points that are evaluated, and constraints that are never violated do not change the run.",
     ["inputs", "configurations", "schedules"],
     "For every constraint set, resample limit (including none and zero), dimension, population size and sequential or parallel sampling.",
     "Two tests sample a fixed box; rounds, limits, boundary values and the order of filtering are not observed.",
     ["src/sampling.rs", "src/options.rs"],
     [("resampling loop", "src/sampling.rs Sampler::sample_internal"),
      ("bounds", "src/sampling.rs Bounds::meets_constraints")],
     None, ["Constraints::meets_constraints calls", "objective function calls"])

prop("C10", "Limits and target stop a run exactly when they are reached",
     "A generation reports MaxFunctionEvals, MaxGenerations, MaxTime or FunTarget if and only if that limit is set and has been reached by the end of that generation (target: a point of this generation is better than it). "
     "Running to termination stops at the first generation that reports any reason, returns exactly the reasons of that generation, and never runs a generation beyond it.",
     ["inputs", "histories", "configurations"],
     "For every combination of limits (including zero, non-multiples of the population size, and infinite or unreachable targets), both modes and every generation, also when iteration is continued after a report.",
     "Tests set each limit once at a single value; off-by-one generations, interactions of limits and the mode of the target comparison over runs are not covered.",
     ["src/termination.rs", "src/lib.rs"],
     [("checks", "src/termination.rs TerminationCheck::check_termination_criteria"),
      ("run loop", "src/lib.rs CMAES::run/run_parallel/next_internal")],
     None, ["TerminationData::reasons", "objective function calls", "CMAES::time_created"])

prop("C11", "Each tolerance criterion fires exactly when its documented condition holds",
     "After every generation the reasons TolFun, TolFunRel, TolFunHist, TolX, TolStagnation, TolXUp, TolConditionCov, NoEffectAxis and NoEffectCoord are reported if and only if the documented condition holds for the values and the distribution observed so far, with the configured or default tolerance. "
     "Each reason is reported at most once per generation, and no criterion hides another.",
     ["inputs", "histories", "configurations"],
     "For every objective, tolerance setting, mode, dimension and history of function values, including histories longer than the 20000 generations kept.",
     "Tests call the checker on hand-made states, one per criterion; window lengths, medians, caps and the interplay with real histories are not exercised.",
     ["src/termination.rs", "src/history.rs", "src/utils.rs"],
     [("checks", "src/termination.rs TerminationCheck::check_termination_criteria"),
      ("windows", "src/termination.rs get_tol_stagnation_generations"),
      ("histories", "src/history.rs History::update, get_median_value")],
     [("best/median histories", "values of the latest 20000 generations", "src/history.rs History")],
     ["TerminationData::reasons", "objective function calls", "CMAES accessors"])

prop("C12", "A failing objective stops the run cleanly and corrupts nothing",
     "If the objective returns NaN for any point, that generation reports only InvalidFunctionValue, the mean, step size, covariance matrix, generation number and bests stay as they were, the evaluations made are counted, and the optimizer can be resumed and keeps all other guarantees; finite and infinite values never cause this report. "
     "A panic in the objective reaches the caller and leaves an optimizer whose observable state is unchanged and can be used further.",
     ["fault_sequences", "schedules", "inputs"],
     "For every position (or several) of the fault in the run, sequential or parallel evaluation, restarts, and any continuation after it.",
     "Tests return NaN from the very first evaluation only; later, repeated, parallel and mid-generation faults and the state left behind are not examined.",
     ["src/sampling.rs", "src/lib.rs", "src/restart/mod.rs"],
     [("NaN detection", "src/sampling.rs EvaluatedPoint::new"),
      ("abort before any state change", "src/lib.rs CMAES::next/next_parallel")],
     None, ["TerminationData", "CMAES accessors", "objective function calls"])

prop("C13", "Hostile objective values and settings never panic or hang the optimizer",
     "Whatever values the objective returns (infinities of either sign, huge, denormal, constant, noisy or NaN) and whatever valid options are used (with constraints that can be met or a resample limit), advancing a generation never panics in the library and always finishes after a bounded amount of work. "
     "Every generation either completes or reports a reason, and a run with a generation or evaluation limit ends within it.",
     ["inputs", "configurations", "histories"],
     "For every sequence of objective values and every accepted configuration, continued arbitrarily long past termination.",
     "Tests use smooth finite functions; a panic on a history of infinite medians (fixed in /repo) passed them all.",
     ["src/lib.rs", "src/state.rs", "src/matrix.rs", "src/termination.rs", "src/history.rs"],
     [("NaN-safe medians", "src/history.rs get_median_value"),
      ("failure of the decomposition", "src/matrix.rs update_eigendecomposition"),
      ("range/median computations", "src/termination.rs, src/utils.rs")],
     None, ["panics and CPU time of CMAES::next"])

prop("C14", "Exactly the invalid options are rejected, and accepted ones can be run",
     "Building an optimizer fails with the documented error if and only if the dimension is zero, the population size is below 2, the initial step size is not positive and normal, or cm is not a normal number in (0, 1]; restart options and strategies are rejected if and only if the dimension is zero, the search range has no positive, finite size, a step size factor is not positive and normal, or a population factor is zero. "
     "Whatever is accepted can be run without a panic (as far as memory allows), and a search range given in reverse means the same as in order.",
     ["configurations", "inputs"],
     "For every combination of option values, including every special floating-point value.",
     "Tests try about a dozen fixed option values; combinations and extreme accepted values (which really can panic) are not tried.",
     ["src/lib.rs", "src/options.rs", "src/restart/options.rs", "src/restart/mod.rs", "src/restart/bipop.rs", "src/restart/ipop.rs", "src/restart/local.rs"],
     [("validation", "src/lib.rs CMAES::new, src/restart/mod.rs Restarter::new"),
      ("strategy validation", "src/restart/*.rs new")],
     None, ["Result of build/new", "panics of run"])

prop("C15", "Restart results account for exactly the evaluations that were made",
     "The results of a restart strategy report the total number of objective calls over all runs, the number of runs performed, and as best individual the best point evaluated in any run with its exact value, in the chosen mode. "
     "The objective is obtained once per run, or only once and threaded through all runs when reuse is requested; sequential and parallel execution of the same seed give the same results.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "For every strategy, objective, mode, seed, set of limits and way of running, including runs ended by invalid values.",
     "Tests check counters for one fixed function per strategy; bests across runs, reuse, maximization and runs ending in faults are not compared with the calls made (two accounting defects were fixed in /repo).",
     ["src/restart/mod.rs", "src/restart/local.rs", "src/restart/ipop.rs", "src/restart/bipop.rs"],
     [("accumulation", "src/restart/mod.rs Restarter::run_internal, update_best_individual")],
     None, ["RestartResults", "objective function calls", "factory calls"])

prop("C16", "A restart strategy stops for the right reason and within its limits",
     "Restarts end with InvalidFunctionValue or FunTarget exactly when the last run ended so, with MaxRuns exactly when the strategy's number of runs (Local: as configured; IPOP: 10; BIPOP: 10 population-increasing runs) is used up, and with MaxFunctionEvals or MaxTime exactly when that budget was used up before another run would start; no run is started after one of these holds, and none is omitted before. "
     "Every single run respects the per-run evaluation and generation limits and the target.",
     ["inputs", "histories", "configurations"],
     "For every strategy, combination of limits (including zero), target, mode and objective.",
     "Tests use one value per limit; the precedence of reasons, zero limits, limits hit in the last run, and per-run limits over all runs are not observed.",
     ["src/restart/mod.rs", "src/restart/strategy.rs", "src/restart/local.rs", "src/restart/ipop.rs", "src/restart/bipop.rs"],
     [("termination checks", "src/restart/mod.rs Restarter::run_internal"),
      ("run counting", "src/restart/*.rs Strategy::next_run")],
     None, ["RestartResults", "objective function calls"])

prop("C17", "Restart strategies follow their documented population and step size schedule",
     "Local uses the default population size and a step size of factor * range / 100 in every run; IPOP starts with the default population size, multiplies it by its factor every run, and uses half the range as step size. "
     "BIPOP starts with an IPOP run (step size range / 5), runs a local restart whenever those have used fewer evaluations than the IPOP runs and an IPOP run otherwise, and local restarts use a population between the default and half the last IPOP population, a step size log-uniformly between 1/100 of and the whole factor * range, and at most about half the evaluations of the last IPOP run.",
     ["histories", "configurations", "inputs"],
     "For every factor, search range, default population size, objective and seed, in every run of the sequence.",
     "Tests check the helper functions and the first runs; the sequence of real runs is not compared with the schedule (an ignored local budget, fixed in /repo, passed them).",
     ["src/restart/local.rs", "src/restart/ipop.rs", "src/restart/bipop.rs", "src/restart/mod.rs"],
     [("schedules", "src/restart/*.rs Strategy::next_run")],
     [("multipliers and budgets", "population multiplier and evaluations of past runs", "src/restart/bipop.rs BIPOP")],
     ["objective function calls per run", "printed run parameters"])

prop("C18", "Restarted runs start at fresh uniform points of the search range",
     "Every run of a restart strategy starts from a mean drawn independently and uniformly from the search range in every coordinate, never outside it, with a run seed different from all others. "
     "The restart seed determines all runs exactly, the reported seed of an unseeded strategy reproduces it, different seeds give different runs, and options given as defaults apply to every run.",
     ["inputs", "histories", "configurations"],
     "For every strategy, search range (also reversed, negative or one-sided), dimension and seed.",
     "Tests check a few means lie in range and that one seed repeats; uniformity, independence across runs and coordinates, and reuse of seeds are statistical properties of many runs.",
     ["src/restart/mod.rs", "src/restart/options.rs"],
     [("initial mean and seed", "src/restart/mod.rs Restarter::generate_initial_mean, run_internal")],
     [("rng", "source of means and run seeds", "src/restart/mod.rs Restarter")],
     ["objective function calls per run", "printed run parameters", "Restarter::seed"])

prop("C19", "Standard problems are solved within the expected budget",
     "On well-posed test functions (sphere, ellipsoid, cigar, discus, Rosenbrock, different powers, rotated and shifted, up to moderate dimension) the optimizer reaches the optimum to high precision within a small multiple of the evaluations a correct CMA-ES needs, in both modes, for every weight setting, in sequential and parallel execution and with bounds; restart strategies find the global optimum of multimodal functions. "
     "On a linear function the step size grows, and it contracts to convergence on the sphere.",
     ["inputs", "configurations"],
     "For every standard function, dimension, seed, mode, weight setting, start point and initial step size in the documented range.",
     "Existing end-to-end tests accept very generous precision and evaluation counts for default settings and dimension 10; a slower or less robust search passes.",
     ["src/state.rs", "src/parameters/mod.rs", "src/sampling.rs", "src/restart/mod.rs"],
     [("the whole algorithm", "src/lib.rs CMAES::run"),
      ("restart strategies", "src/restart/")],
     None, ["evaluations and precision reached"])

prop("C20", "The data plot records the true states and can always be drawn",
     "The plot holds one data point for the initial state, the first generation, each generation once the configured gap of evaluations since the previous point has passed, and the final state of a run, never two for one generation; each point holds the true evaluation count, best and median value, step size, axis ratio, mean, axis lengths and coordinate scales of its generation. "
     "Clearing keeps only the latest point, and saving a plot of any recorded data succeeds with a complete image, never panics or hangs, and does not change the run.",
     ["inputs", "histories", "configurations"],
     "For every objective (including infinite, huge, negative or constant values), gap, dimension, number of generations, and sequence of record, clear and save operations.",
     "Tests check that files get written for benign data and count points for one gap; recorded values are compared with nothing, and hostile values made saving hang forever (fixed in /repo).",
     ["src/plotting/mod.rs", "src/plotting/data.rs", "src/plotting/draw.rs", "src/plotting/utils.rs", "src/lib.rs"],
     [("recording", "src/plotting/data.rs PlotData::add_data_point, src/lib.rs CMAES::add_plot_point"),
      ("cadence", "src/plotting/mod.rs Plot::get_next_data_point_evals"),
      ("drawing", "src/plotting/draw.rs")],
     [("data series", "recorded points", "src/plotting/data.rs PlotData")],
     ["Plot::len", "Plot debug output", "saved image files"])

prop("C21", "Printed progress shows the true state at the documented moments",
     "With printing enabled, the header, one row for each of the first three generations and for every generation once the configured gap of evaluations has passed, and the final summary are printed, each generation at most once; every row shows the true generation, evaluations, best value, axis ratio, step size and extreme standard deviations of its generation. "
     "The summary and the output of restarts show the true termination reasons, best values, mean, run parameters, run results and totals, and nothing is printed when printing is disabled.",
     ["inputs", "histories", "configurations"],
     "For every objective (including non-finite values), gap, dimension and number of generations, sequential or parallel, and for every restart strategy.",
     "No test reads the output; only the number formatter is tested.",
     ["src/lib.rs", "src/utils.rs", "src/restart/mod.rs", "src/functions.rs"],
     [("printing", "src/lib.rs CMAES::print_initial_info/print_info/print_final_info"),
      ("cadence", "src/lib.rs CMAES::next_internal"),
      ("restart output", "src/restart/mod.rs print_*")],
     [("last_print_evals", "when progress was last printed", "src/lib.rs CMAES")],
     ["standard output"])

prop("C22", "Objective wrappers and convenience functions are transparent",
     "Passing an objective as closure, function, boxed trait object, mutable reference, or custom type, sequentially or in parallel, gives identical runs, and it is retrieved from the optimizer in the state the calls left it in. "
     "A scaled objective is called with every coordinate multiplied by its scale (and nothing else changed), and the minimize/maximize convenience functions return the same best individual as the equivalent default options.",
     ["inputs", "configurations", "programs"],
     "For every objective, dimension, scale vector (including negative, zero and huge scales), mode and nesting of wrappers.",
     "Tests wrap a single function once; nesting, parallel paths, retrieval and equality of whole runs are not compared.",
     ["src/objective_function.rs", "src/functions.rs", "src/lib.rs"],
     [("wrapper implementations", "src/objective_function.rs"),
      ("convenience functions", "src/functions.rs"),
      ("retrieval", "src/lib.rs CMAES::into_objective_function")],
     None, ["objective function calls", "returned individuals"])

prop("C23", "No undefined behaviour or data race in sequential or parallel use",
     "No memory error, undefined behaviour or data race is reachable through the safe public interface, under parallel evaluation, parallel state updates, constraints shared between threads, concurrently running optimizers and restarts, moved or shared between threads. "
     "Objects that are not promised to be usable from other threads are only used, cloned and dropped on the caller's thread. "
     "An objective that is only promised to be callable concurrently is never called with exclusive access concurrently, and each parallel evaluation finishes before the generation returns.",
     ["schedules", "inputs"],
     "For every thread interleaving of parallel evaluation and update, with any number of threads, objectives, constraints and concurrent optimizers.",
     "Tests run once under an uninstrumented scheduler; races and memory errors rarely show without a sanitizer and provoked interleavings.",
     ["src/sampling.rs", "src/state.rs", "src/objective_function.rs", "src/lib.rs"],
     [("Sync bounds and rayon iterators", "src/sampling.rs Sampler::sample_parallel, sample_internal"),
      ("parallel reduction", "src/state.rs rank_mu_update_parallel")],
     None, ["ThreadSanitizer, AddressSanitizer and Miri reports", "objective function calls"])

prop("C24", "Retained memory is bounded and everything is released exactly once",
     "The memory an optimizer retains stops growing with the number of generations once the value history of 20000 generations is full, except for recorded plot points, which take constant space each and whose space is kept for reuse after clearing. "
     "Dropping an optimizer or finishing restarts releases everything it allocated, and each objective handed over is dropped exactly once or returned to the caller.",
     ["histories", "inputs", "fault_sequences"],
     "For every number of generations, configuration, number of restarts and way of ending (normal, invalid value, panic).",
     "Tests run a few thousand generations at most and never measure memory or drops.",
     ["src/history.rs", "src/plotting/data.rs", "src/lib.rs", "src/restart/mod.rs"],
     [("history cap", "src/history.rs History::update"),
      ("plot clear", "src/plotting/data.rs PlotData::clear"),
      ("objective ownership", "src/lib.rs into_objective_function, src/restart/mod.rs run_internal")],
     [("histories", "bounded queues", "src/history.rs History")],
     ["allocator statistics", "drops of the objective"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        s = p["statement"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
