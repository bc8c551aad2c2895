"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state or []))

TESTS = "The two stable tests parse two example files and compare one number of one MCMC run on one data set; "

prop("C01", "The compiled model is the model written in the file",
 "For every well-formed model file, impulse responses of the compiled model satisfy every equation of the file exactly as written (all leads, lags, lagged shocks, parameters, functions of parameters and the constraint), observables equal their measurement equations and the shock matrix its declaration, irrespective of the order of declarations or of equivalent syntax. A malformed or unsupported file is rejected with an error, never compiled into something else.",
 ["programs"], "all model files of a grammar (leads/lags up to 5, shock lags, constraint forms, orderings, syntax variants, identifiers, observables, malformed files)",
 TESTS + "the meaning of the compiled matrices is never compared with the file.",
 ["pydsge/parser.py", "pydsge/symbols.py", "pydsge/gensys.py"],
 [("auxiliary variables for long leads and lags", "pydsge/parser.py:DSGE.parse"), ("differentiation of equations", "pydsge/parser.py:DSGE.get_matrices"), ("state reduction", "pydsge/gensys.py:gen_sys")],
 ["DSGE.read", "irfs", "obs", "get_cov"],
 "bounded-exhaustive enumeration of model programs on the real parser, compared with a reference interpreter",
 "Every file of the stated grammar is read by the real parser and its responses are compared with an independent interpreter and solver; trusts that interpreter, numpy, and 1e-6 tolerance.")

prop("C02", "A parametrization is accepted iff it has a unique stable solution",
 "Compiling a model at any parameter values succeeds exactly if these imply a unique stable solution of the unconstrained model, and otherwise raises an error (batch impulse responses flag such parameters instead of returning numbers). If accepted, the unconstrained dynamics satisfy all equations at these parameters, also when some coefficients vanish.",
 ["inputs"], "all points of a parameter lattice crossing the determinacy boundaries and including zeros, for several models",
 TESTS + "no indeterminate, explosive or degenerate parametrization is ever compiled.",
 ["pydsge/gensys.py", "pydsge/mpile.py", "pydsge/tools.py"],
 [("generalized Schur decomposition with eigenvalue count", "pydsge/gensys.py:gen_sys"), ("error flags of batch irfs", "pydsge/tools.py:irfs")],
 ["set_par", "irfs"],
 "exhaustive lattice exploration of parametrizations with an independent eigenvalue count",
 "Every lattice point is compiled by the real code; acceptance is compared with an own generalized-eigenvalue count, dynamics with a time-iteration solution.")

prop("C03", "Given durations, the path obeys the model with the constraint binding as assumed",
 "For every pair of durations (l, k) within the declared maxima and every initial state and shock, the path generated under these durations satisfies all model equations in every period, with the constrained variable equal to its bound exactly in periods l to l+k-1 and equal to its unconstrained rule in all others. This holds for any choice of l_max and k_max, of the bound, and with parallel preprocessing.",
 ["inputs", "configurations"], "all (l,k) up to the maxima x an affine basis of states and shocks (the map is affine, so the basis decides all states) x several models and settings",
 TESTS + "constrained regimes are never compared with the model equations.",
 ["pydsge/engine.py", "pydsge/gensys.py", "pydsge/tools.py"],
 [("backward recursion over (l,k)", "pydsge/engine.py:preprocess_jittable"), ("lookup of decision rules", "pydsge/engine.py:t_func_jit")],
 ["t_func(set_k=...)", "irfs(set_k=...)"],
 "exhaustive exploration of all (l,k) regimes on an affine state basis, on the real transition function",
 "All (l,k) and a complete affine basis are executed on the real code (pure Python mode of the jitted functions; compiled mode in the thorough tier).")

prop("C04", "The equilibrium is selected as documented, with correct error flags",
 "For every state and shock, the endogenous durations are (0, 0) if the unconstrained forecast stays above the bound for the search horizon, otherwise those of the first (lowest l, then lowest k) duration pair that is consistent with the bound, and the flag is zero in both cases. If no pair within the maxima is consistent, the flag is nonzero (2 if the maximal duration was reached, 1 otherwise) and the search always terminates within the maxima.",
 ["inputs", "configurations"], "all points of state x shock lattices, for several models, bounds and (l_max, k_max)",
 TESTS + "the selected durations are never inspected.",
 ["pydsge/engine.py", "pydsge/tools.py"],
 [("search for (l,k)", "pydsge/engine.py:find_lk, bruite_wrapper"), ("values at the constraint", "pydsge/engine.py:preprocess_jittable")],
 ["t_func(return_k=True)", "simulate", "irfs"],
 "exhaustive lattice exploration of states on the real transition function against a reference selection",
 "Every lattice state is executed and compared with a reference implementation of the documented selection; states within 1e-7 of a decision threshold are skipped and counted.")

prop("C05", "Simulations are the composition of one-period transitions with correct timing",
 "Impulse responses and simulations equal the period-by-period composition of the transition function for every schedule of shocks: each shock enters in its stated period with its stated size, any accepted notation of the shock list means the same, and initial states, parameters, masks, imposed durations and the linear option have exactly their documented effect; durations beyond the maxima are rejected. In unconstrained simulations responses are additive and proportional in the shocks, and batch results equal those of single runs.",
 ["histories", "inputs"], "all shock schedules over two or three shocks, four periods and several sizes; all notations; all option combinations",
 TESTS + "no simulated number is compared with anything.",
 ["pydsge/tools.py"],
 [("period loop", "pydsge/tools.py:irfs"), ("sample loop and masks", "pydsge/tools.py:simulate")],
 ["irfs", "simulate"],
 "exhaustive enumeration of shock histories and options on the real simulator against a reference fold",
 "All schedules within the bound are executed; where several equilibria coexist, both continuing and re-selecting are accepted.")

prop("C06", "Parameters, system and covariances stay in sync through any history of calls",
 "After any sequence of setting and reading parameters the model behaves exactly as a fresh model put at the current parameters: the current parameters are those last set successfully, reading (any parameter set, single values, covariances, functions of parameters) changes nothing, and a rejected setting leaves everything as it was. Each documented way of naming a parametrization yields the documented values, as array or dict, for all or the estimated parameters only.",
 ["histories"], "all sequences up to length 3 over an alphabet of set/get operations; all named parametrizations",
 TESTS + "one fixed call sequence.",
 ["pydsge/mpile.py", "pydsge/gensys.py"],
 [("set_par, get_par, get_cov", "pydsge/mpile.py"), ("recompilation", "pydsge/gensys.py:gen_sys_from_yaml")],
 ["set_par", "get_par", "get_cov", "t_func"],
 "explicit-state search over histories of parameter operations on the real object against a reference state machine",
 "All operation sequences to the stated depth are executed on real objects and compared with a dictionary model plus freshly compiled systems.")

prop("C07", "Functions of parameters resolve independently of the order of declaration",
 "Parameters declared as functions of other parameters evaluate to the value of their definition for every acyclic dependency structure, in any order of declaration, at every parametrization, including functions from the accompanying functions file and the standard functions. Circular or undefined dependencies raise an error instead of returning values or not terminating.",
 ["programs", "inputs"], "all dependency graphs over up to four derived parameters x all declaration orders x parametrizations",
 TESTS + "one fixed set of definitions.",
 ["pydsge/parser.py", "pydsge/mpile.py"],
 [("iterative resolution", "pydsge/parser.py:DSGE.get_matrices")],
 ["get_par(name)", "get_par(asdict=True)", "set_par"],
 "exhaustive enumeration of dependency graphs and declaration orders on the real parser",
 "All graphs within the bound are parsed and evaluated by the real code and compared with recursive substitution.")

prop("C08", "Reading a model depends on the files only, and instances are independent",
 "What reading a model file returns is determined by the current content of that file, its functions file and its location only, regardless of which models were read, altered or modified before and of whether the cache is used. Changing one model object (parameters, data, settings, stored results) never affects another one or later reads.",
 ["histories"], "all sequences up to length 3 over an alphabet of read / rewrite-file / mutate operations",
 TESTS + "each file is read once.",
 ["pydsge/parser.py"],
 [("cache of parsed models", "pydsge/parser.py:crawl_cached_models, DSGE.read"), ("copies of cached models", "pydsge/parser.py:DSGE.read")],
 ["DSGE.read"],
 "explicit-state search over read/rewrite/mutate histories on the real cache",
 "All histories to the stated depth; every read is compared with a cache-free reference.")

prop("C09", "Saving and loading round-trips",
 "A model that was saved and loaded again (from the stored object or re-parsed) has the same equations, calibration, priors, data, name, description, filter settings, posterior, mode and dynamics as the original, in whatever state it was saved and whether or not the original file still exists, and loading twice or saving again changes nothing. Results stored with a path and suffix are returned unchanged when loaded with the same path and suffix, for every form of path.",
 ["histories", "inputs"], "all subsets of preparation steps before saving x load options x re-saves; all path forms x suffixes",
 TESTS + "nothing is loaded back.",
 ["pydsge/parser.py", "pydsge/clsmethods.py"],
 [("save_meta / DSGE.load", "pydsge/clsmethods.py, pydsge/parser.py"), ("save_rdict / load_rdict", "pydsge/clsmethods.py")],
 ["save", "DSGE.load", "save_rdict", "load_rdict"],
 "exhaustive enumeration of save/load histories on the real code",
 "All combinations within the bound are executed in a scratch directory.")

prop("C10", "Filtering is exact and repeatable",
 "With the linear filter, likelihood, filtered and smoothed states equal those of the textbook Kalman filter for the model's unconstrained solution, shock covariances, measurement errors and stationary initial covariance, for every parametrization and data set. With the nonlinear filter, the likelihood is that of the ensemble filter applied to the model's constrained transition and measurement equations. Running a filter repeatedly or after other operations gives the same result.",
 ["histories", "inputs"], "all sequences of filter operations up to length 3 x parametrizations x data sets x measurement errors",
 TESTS + "one likelihood path.",
 ["pydsge/filtering.py", "pydsge/gensys.py"],
 [("run_filter", "pydsge/filtering.py"), ("create_filter", "pydsge/filtering.py")],
 ["run_filter", "get_ll", "create_filter"],
 "exhaustive exploration of filter histories and inputs against a reference Kalman / ensemble filter",
 "The reference filters are built on the reference solution of the model file; the ensemble filter's random draws are reproduced by fixing its quasi-random engine.")

prop("C11", "The posterior is a pure function of its argument",
 "The log posterior of a parameter vector is log prior plus (tempered) log likelihood of exactly these parameters, irrespective of what was evaluated before, and does not disturb the global random state. It is minus infinity, without raising, if and only if the prior is zero there or the model or likelihood cannot be computed.",
 ["histories", "inputs"], "all evaluation sequences up to length 3 over an alphabet of parameter vectors (valid, outside the prior, no solution) x temperatures x transformations",
 TESTS + "posterior values are only used inside one MCMC run.",
 ["pydsge/estimation.py"],
 [("lprob / llike closures", "pydsge/estimation.py:prep_estim")],
 ["lprob", "prep_estim"],
 "explicit-state search over evaluation histories on the real posterior",
 "All sequences to the stated depth; compared with a reference posterior from independent prior densities and Kalman likelihood.")

prop("C12", "Parallel execution never changes results",
 "Batch computations over many parameter vectors or samples (impulse responses, simulations, extraction of shocks, sampling from the prior, posterior evaluations in the sampler) return the same results in the same order for every number of workers and every assignment of tasks to workers, and equal to serial evaluation. Whether a pool exists, was closed or was disabled never makes an operation fail.",
 ["schedules", "configurations"], "all assignments of up to four tasks to up to three workers and all orders of execution, via a controlled process pool",
 TESTS + "one schedule of the operating system.",
 ["pydsge/estimation.py", "pydsge/tools.py", "pydsge/filtering.py", "pydsge/mpile.py", "pydsge/mcmc.py"],
 [("mapper and create_pool", "pydsge/estimation.py"), ("copies of the model inside runners", "pydsge/tools.py")],
 ["irfs(pars)", "simulate", "extract", "get_par('prior')"],
 "stateless exploration of all worker schedules under a controlled process pool",
 "The process pool is replaced by a controlled one that forks workers and executes the prescribed assignment; the code of pydsge itself is unmodified.")

prop("C13", "Extracted shocks reproduce the smoothed path and decompositions add up",
 "Simulating the extracted initial state and shocks reproduces the smoothed path of the linear filter, and matches the observed data up to measurement errors for every filter and for every parametrization in the sample. An attempt to extract that fails is repeated with another seed, at most as often as stated; what cannot be extracted raises an error, or is left out if failures are accepted. The contributions of all shocks in the historical decomposition sum to the simulated path in every period, with and without binding constraint, and sorting contributions preserves their sums and signs. The effect of a binding constraint is distributed in proportion to the contributions of the shocks to the constraint.",
 ["inputs", "histories"], "all data sets of a lattice x parametrizations x linear/nonlinear decomposition",
 TESTS + "nothing is extracted in a stable test.",
 ["pydsge/filtering.py", "pydsge/stats.py", "pydsge/tools.py"],
 [("extract", "pydsge/filtering.py"), ("nhd, sort_nhd", "pydsge/stats.py")],
 ["extract", "simulate", "nhd", "sort_nhd"],
 "exhaustive exploration of data and parameter lattices on the real code with conservation invariants",
 "All lattice points are executed; invariants are exact identities (up to rounding).")

prop("C14", "Stored chains contain exactly what was sampled, through any history of runs",
 "After any sequence of fresh, resumed, appended and interrupted runs the stored chain is the concatenation of the completed iterations since the last fresh start, in the stated file, with posterior values belonging to the stored parameters, and a resumed run continues at the last stored position. The number of draws kept defaults to a fifth of the run, and the stored mode is the kept draw with the highest posterior, in terms of the model's parameters.",
 ["histories", "crash_points", "configurations"], "all sequences up to length 3 of runs (fresh/resume/append/interrupted x suffix x tune x storage) with a deterministic sampler",
 TESTS + "one fresh run, of which one number is compared.",
 ["pydsge/mcmc.py", "pydsge/clsmethods.py"],
 [("backend selection and reset", "pydsge/mcmc.py:mcmc"), ("get_chain", "pydsge/clsmethods.py")],
 ["mcmc", "get_chain", "get_log_prob", "get_par('mode')"],
 "explicit-state search over histories of sampler runs on the real storage code",
 "All histories within the bound are executed against real HDF5 files in a scratch directory.")

prop("C15", "Data loading selects exactly the requested observations or fails",
 "Loading data yields exactly the declared observables in their declared order and exactly the rows from start to end (inclusive), for any column order, extra columns and any kind of index, without altering the given data frame. Missing observables, missing values inside the selection and wrong types raise an error and leave previously loaded data in place. Measurement-error covariances and shock masks derived from the data always refer to the current selection.",
 ["inputs"], "all combinations of index types x start/end x column orders x positions of missing values",
 TESTS + "one data set without selection.",
 ["pydsge/clsmethods.py"],
 [("load_data", "pydsge/clsmethods.py")],
 ["load_data", "data", "create_obs_cov", "mask"],
 "exhaustive enumeration of data frames and selections on the real loader",
 "Compared with a list-based reference of the selection.")

prop("C16", "Models from dictionaries behave as the same model from a file",
 "A model given by its matrices has the same transition function, durations, impulse responses and observables as the model file with these matrices, with or without observables, lagged variables or shocks in the constraint, and a provided solution. Results depend only on the content of the dictionary and the settings, not on what was processed before, and the dictionary is not altered.",
 ["programs", "histories"], "all models of a small grammar x all l_max/k_max settings x all processing histories up to length 3",
 TESTS + "dictionaries are never used.",
 ["pydsge/gensys.py"],
 [("gen_sys_from_dict and its cache", "pydsge/gensys.py")],
 ["gen_sys_from_dict", "irfs", "t_func"],
 "exhaustive enumeration of dictionaries and processing histories, differential against the file-based model and the reference",
 "Every dictionary is processed by the real code and compared with the reference solution.")

prop("C17", "All routes to observables agree with the measurement equations",
 "Observables computed from states by any route (single states, series, batches, at other parameters, directly from the transition function) equal the declared measurement equations at the respective parameters. Intervals are centred and have the standard deviation implied by the state covariances, and none of these calls alters the model.",
 ["inputs"], "all routes x state bases x parametrizations x observation equations",
 TESTS + "no observable is ever computed outside the filter.",
 ["pydsge/tools.py", "pydsge/gensys.py"],
 [("o_func", "pydsge/tools.py"), ("measurement matrices", "pydsge/gensys.py:gen_sys")],
 ["obs", "o_func", "t_func(get_obs=True)", "oix", "vix"],
 "exhaustive enumeration of routes on an affine state basis on the real code",
 "The map is affine; a complete basis is executed on every route.")

prop("C18", "Posterior statistics are computed from exactly the kept draws",
 "Posterior mean, posterior draws, exported draws, summaries and data densities use exactly the last `tune` iterations of all walkers of the stored chain, in the model's parameter space and in the order in which the prior declares the parameters. A given chain or tune argument is honoured. A requested sample consists of distinct, recent draws of the chain. Chain accessors return all draws with their posterior values and acceptances, results are the same whether read from memory, from the stored file or after reloading the model, and reading them does not alter the model.",
 ["inputs", "histories"], "all chain shapes x tune values x transformations x access routes, with chains of pairwise distinct values",
 TESTS + "the stable tests only look at the first draw.",
 ["pydsge/clsmethods.py", "pydsge/stats.py", "pydsge/mpile.py"],
 [("get_chain, get_sample, posterior2csv, mcmc_summary", "pydsge/clsmethods.py"), ("post_mean", "pydsge/stats.py"), ("posterior_sampler", "pydsge/mpile.py")],
 ["get_par('post_mean')", "get_par('posterior')", "get_sample", "get_chain", "posterior2csv"],
 "exhaustive enumeration of stored chains and access routes on the real code",
 "Chains are written by the real storage backend; every access is compared with a plain array reference.")

prop("C19", "Constraint trajectories and duration maps match the transition function",
 "The trajectory of the constraint value for a state and durations (given or endogenous) equals the value of the constraint's right-hand side along the path that the transition function generates, in every period. The duration maps agree with the same values, and both always refer to the current parameters.",
 ["inputs", "histories"], "all (l,k) x an affine basis of states x histories of parameter changes",
 TESTS + "these functions are never called.",
 ["pydsge/tools.py", "pydsge/engine.py"],
 [("traj, k_map", "pydsge/tools.py"), ("preprocess_tmats_jit", "pydsge/engine.py")],
 ["traj", "k_map", "shock2state"],
 "exhaustive exploration of all (l,k) on an affine basis and of parameter histories, on the real code",
 "Compared with the reference path of the model file.")

prop("C20", "Variance decompositions are the shares of the shocks in the squared responses",
 "For every horizon and every sample of parametrizations, states and shocks, the generalized forecast error variance decomposition attributes to each shock, for each variable, its share in the sum over all draws and periods of the squared differences between the path with and without this shock, each computed at the parameters and from the state belonging to that draw, with or without the constraint. If a smaller number of samples is asked for, it uses that many different draws. States that are not given are those of the simulation, and neither the model nor the arguments are altered.",
 ["inputs", "configurations"], "all samples of a lattice of shocks, states and parametrizations x horizons x maxima x linear/nonlinear x numbers of draws",
 TESTS + "decompositions are never computed.",
 ["pydsge/stats.py", "pydsge/tools.py"],
 [("sum over draws", "pydsge/stats.py:gfevd"), ("responses", "pydsge/tools.py:irfs")],
 ["gfevd"],
 "exhaustive enumeration of samples, horizons and settings on the real code against a reference fold",
 "Every lattice sample is decomposed by the real code and compared with squared differences of reference paths; a subset of draws has to be one of all possible subsets.")

prop("C21", "Prior samples consist of admissible draws of the declared priors",
 "A sample from the prior has the requested size, and each of its elements is a draw from the declared prior distributions, in the order in which the prior declares the parameters, for which the model has a solution and, if asked for, a finite posterior; candidates for which this is not the case are skipped, whatever was tried before, and an error is raised if none is found within the permitted number of attempts. Complete parameter vectors combine the draws with the calibration, and getting them leaves the model as it was. The check of bounds names exactly those estimated parameters that lie outside of their declared bounds, for given and for current parameters.",
 ["inputs", "histories"], "all sequences of admissible, indeterminate, explosive and impossible candidates up to a length x checks x sample sizes x routes x states of the model x limits of attempts; all positions relative to the bounds",
 TESTS + "the prior is never sampled in them.",
 ["pydsge/mpile.py", "pydsge/estimation.py"],
 [("drawing and trying", "pydsge/mpile.py:prior_sampler"), ("reading", "pydsge/mpile.py:get_par"), ("bounds", "pydsge/mpile.py:box_check")],
 ["prior_sampler", "get_par", "box_check"],
 "exhaustive enumeration of scripted candidate sequences on the real sampler against a reference semantics of skipping",
 "The random numbers behind the declared priors are replaced by scripts; all sequences up to the bound are executed by every route.")

prop("C22", "Reporting and debugging options never change results",
 "Every operation that can be asked to report on what it does (verbosity of any level) or to run in debugging mode returns the same results, fails on the same inputs, and leaves the model in the same state as when it is asked to be quiet; whatever is done afterwards gives the same results as well. This holds for models from files and from dictionaries, before and after an estimation was prepared, with linear and nonlinear filters.",
 ["inputs", "histories"], "all operations with such options x levels of reporting x states of preparation x what is done next",
 TESTS + "no stable test compares levels of reporting.",
 ["pydsge/tools.py", "pydsge/gensys.py", "pydsge/mpile.py", "pydsge/estimation.py", "pydsge/filtering.py"],
 [("reports", "pydsge/gensys.py:gen_sys"), ("failures within the likelihood", "pydsge/estimation.py:llike"), ("reports", "pydsge/tools.py")],
 ["verbose=...", "debug=..."],
 "exhaustive exploration of pairs of operations on the real code, comparing reporting with quiet executions",
 "Every pair of an operation with every level and a following operation is executed from the same (forked) state as its quiet counterpart.")

prop("C23", "Calls that fail leave the model as it was",
 "A call whose arguments are inadmissible (a parametrization that has no solution, is explosive, of the wrong length or not a number, at any position of a sample of parametrizations; shocks, states, samples, durations or data of the wrong shape; names that do not exist; files that cannot be processed) fails, or marks the parametrization as failed where this is documented, and leaves the model as it was: parameters, covariances, data, likelihood, durations, transition and observables are those from before the call, and later settings refer to them.",
 ["inputs", "histories"], "all batch operations x inadmissible elements at all positions of samples, all other inadmissible arguments, pairs of failing calls, histories of settings before and after",
 TESTS + "no test provokes a failure.",
 ["pydsge/tools.py", "pydsge/stats.py", "pydsge/mpile.py", "pydsge/filtering.py", "pydsge/gensys.py"],
 [("restoring parameters", "pydsge/stats.py:keep_par"), ("observables of samples", "pydsge/tools.py:o_func"), ("setting parameters", "pydsge/mpile.py:set_par")],
 ["obs", "nhd", "gfevd", "simulate", "irfs", "extract", "set_par", "get_par", "load_data"],
 "exhaustive injection of inadmissible arguments at all positions and in all states on the real code against a reference state machine",
 "Every failing call (and every pair of them) is executed in every enumerated state, and the complete observable state is compared with the one of the reference machine, which ignores failing calls.")

prop("C24", "Calls leave their arguments alone, and what they return belongs to the caller",
 "No operation alters the arguments it is given (arrays, lists, dictionaries of results, data frames), its results do not depend on how the arguments are laid out in memory, and the model keeps neither arguments nor results: whatever the caller later does to the arguments or to the returned objects changes nothing about the model and about what later calls return, and no later call changes what was returned before. (Data frames returned by load_data and chains held in memory are the model's own.)",
 ["inputs", "histories"], "all operations in all states of preparation x layouts of the arguments x overwriting arguments or results x what is done next",
 TESTS + "no test uses an argument or a result twice.",
 ["pydsge/tools.py", "pydsge/stats.py", "pydsge/mpile.py", "pydsge/filtering.py", "pydsge/clsmethods.py", "pydsge/estimation.py"],
 [("counterfactuals", "pydsge/tools.py:simulate"), ("parameters", "pydsge/mpile.py:get_par"), ("shocks", "pydsge/tools.py:irfs"), ("initial covariances", "pydsge/filtering.py:run_filter")],
 ["t_func", "obs", "irfs", "simulate", "traj", "k_map", "get_par", "set_par", "load_data", "lprob", "extract", "nhd", "gfevd", "sort_nhd", "get_sample", "mdd"],
 "exhaustive exploration of (operation, layout, overwriting, following operation) on the real code against the same history without overwriting",
 "Every operation is executed from the same (forked) state with and without overwriting what the caller holds, followed by every observation.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "mc", "checks", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": "model checking: " + p["technique"], "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, yaml, sympy'", "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo: all checks drive the unmodified public interface (jitted functions run in pure Python mode through NUMBA_DISABLE_JIT, the thorough tier adds compiled runs)."},
        open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
