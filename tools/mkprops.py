#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept here in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

B = "bayes_optim/"
prop("P01", "Every suggestion lies inside the declared search space",
 "Every point an optimizer suggests, whether from the initial design, from the acquisition search or from the random fallback, assigns each declared variable a value of its own kind that the declaration admits: reals within the bounds and on the declared decimal precision (or at a bound), integers within the bounds and on the declared step, categorical, ordinal, Boolean and subset values among the declared levels. "
 "Points come as lists in declaration order or as dictionaries keyed by variable name, as configured. "
 "A request for n points yields between one and n points (the configured design size or batch size when n is not given), exactly n when there are no constraints and a continuous variable without a declared precision is left free, or otherwise possibly an explicit empty-suggestion error.",
 ["configurations", "histories", "inputs"],
 "all search spaces over the supported variable kinds, all optimizer classes (sequential, batch, noisy, annealing, multi-acquisition, self-adaptive, multi-objective), acquisition functions and inner optimizers, all reachable histories and random seeds",
 "Tests ask a handful of spaces with one seed and only check that nothing raises; a value that is one step, one digit or one type off in a particular kind/scale/optimizer combination passes them.",
 [B+"base.py", B+"bayes_opt.py", B+"search_space/search_space.py", B+"search_space/variable.py", B+"acquisition/optim/__init__.py", B+"acquisition/optim/mies.py", B+"acquisition/optim/one_plus_one_cma_es.py"],
 [("ask / initial design / random fallback", B+"base.py:ask,create_DoE"), ("sampling and rounding", B+"search_space/search_space.py:sample,_sample,round"), ("box handling in the inner optimizers", B+"utils/utils.py:handle_box_constraint")],
 ["the value returned by ask()"])

prop("P02", "Fixed variables keep exactly the values the user fixed",
 "When a proper subset of the variables is fixed in a request, every suggested point carries exactly the fixed value for each of those variables, and the remaining variables still respect their declarations. "
 "This holds for the initial design and for model-based suggestions, for list and dictionary points, and for any position, number and order of the fixed variables. "
 "Fixing is local to the request: it changes neither the caller's mapping nor the search space, and a following unrestricted request varies these variables again.",
 ["inputs", "histories", "configurations"],
 "all proper subsets of variables of any kind, all admissible fixed values (also falsy ones and values off the precision grid), any reachable history",
 "Tests fix one variable in one space once; misplacement shows only for particular positions, kinds or several fixed variables.",
 [B+"base.py", B+"utils/utils.py", B+"search_space/search_space.py"],
 [("filling in fixed values", B+"utils/utils.py:fillin_fixed_value,partial_argument"), ("sub-space of free variables", B+"search_space/search_space.py:filter"), ("requests with fixed values", B+"base.py:ask,create_DoE,arg_max_acquisition")],
 ["the value returned by ask(fixed=...)"])

prop("P03", "Suggestions never violate the known constraints",
 "With inequality and/or equality constraint functions given, every suggested point satisfies every inequality (value at most zero) and every equality up to the tolerance of 0.1, for initial designs, model-based suggestions and random fallbacks alike, also in combination with fixed variables, numerical precision and dictionary-valued points. "
 "If too few feasible points are found, fewer points are returned or an explicit empty-suggestion error is raised; an infeasible point is never returned. "
 "Constraint functions always receive complete points in the configured format.",
 ["inputs", "histories", "configurations"],
 "all constraint functions over real, integer and categorical variables, including several constraints at once and infeasible problems; all histories and seeds",
 "Tests check two constraints with one seed; feasibility of fallback points, rounded points and points with fixed variables is never asserted.",
 [B+"base.py", B+"search_space/search_space.py", B+"search_space/samplers.py", B+"acquisition/optim/__init__.py", B+"utils/utils.py"],
 [("feasible sampling", B+"search_space/search_space.py:sample"), ("feasibility filter of the acquisition search", B+"acquisition/optim/__init__.py:argmax_restart"), ("constraint wrappers", B+"utils/utils.py:func_with_list_arg,partial_argument")],
 ["the value returned by ask()", "arguments the constraint functions are called with"])

prop("P04", "Noiseless optimizers never suggest a point twice",
 "In the noiseless optimizers no suggested point coincides with another point of the same batch or with a point already observed (reals compared up to floating-point closeness, other kinds exactly), whatever the history, including observations the optimizer never suggested. "
 "When the space is exhausted fewer points or an explicit empty-suggestion error result. "
 "The optimizer for noisy objectives is the only one that may repeat points.",
 ["histories", "configurations", "inputs"],
 "all histories (own, foreign and warm-start observations), small finite spaces up to exhaustion, mixed spaces, list and dictionary points, batch sizes",
 "Duplicates appear only in nearly exhausted or coarse-grained spaces after particular histories; the tests never exhaust a space.",
 [B+"bayes_opt.py", B+"base.py"],
 [("duplicate filter", B+"bayes_opt.py:BO.pre_eval_check"), ("refill after filtering", B+"base.py:ask,create_DoE")],
 ["the value returned by ask()", "the recorded history"])

prop("P05", "The history records every finite evaluation exactly once, in order",
 "After any sequence of reports the recorded history is exactly the sequence of reported points with finite objective values (warm-start data first), each under its own variable names, paired with its own value and counted as evaluated once; points whose value is NaN or infinite are dropped and never corrupt other records. "
 "The evaluation counter grows by the number of reported evaluations (times the number of objectives in the multi-objective case), including failed ones, the iteration counter by one per report that does not end in the explicit flat-objective error, and warm-start data count towards neither. "
 "Reporting never modifies the caller's points and values, and dictionary points are matched by name whatever the order of their keys.",
 ["histories", "inputs"],
 "all sequences of reports: batches of any size, permuted and foreign points, failed evaluations anywhere (also all of them), warm-start data in any accepted form, single and multi-objective, list and dictionary points",
 "Tests report a few well-formed batches and look at nothing but the absence of exceptions.",
 [B+"base.py", B+"mobo.py", B+"extension.py", B+"solution.py"],
 [("report", B+"base.py:tell; "+B+"mobo.py:tell"), ("dropping failed evaluations", B+"base.py:post_eval_check"), ("warm data", B+"base.py:warm_data"), ("name matching", B+"solution.py:from_dict")],
 ["data", "eval_count", "iter_count"], [("data", "history of finite observations"), ("eval_count / iter_count", "evaluation and iteration counters")])

prop("P06", "The incumbent is always the best observation for the chosen direction",
 "At every moment the recommended solution is an observed point whose value is the smallest observed one when minimizing and the largest one when maximizing (the earliest among ties), reported together with that value. "
 "Once something finite is known, the record of best values gains exactly one entry per reported batch (none when the report ends in the explicit flat-objective error), each equal to the best value known at that time, hence monotone in the chosen direction. "
 "Before any finite observation a recommendation request raises an explicit error instead of returning something.",
 ["histories", "configurations"],
 "all sequences of reported values (ties, negative, failed evaluations, warm-start data) in both directions",
 "Tests minimize and look at the final value only.",
 [B+"_base.py", B+"base.py"],
 [("incumbent", B+"_base.py:xopt,recommend,_get_best"), ("record of best values", B+"base.py:tell")],
 ["recommend()", "xopt", "hist_f"])

prop("P07", "Runs stop exactly when the budget or the target is reached",
 "The stop test is true if and only if at least the allowed number of evaluations has been made, or the incumbent is strictly better than the target in the chosen direction, and it names the reasons with the evaluation count and the best value; once true it stays true. "
 "A run evaluates whole batches until the stop test holds, never starts a batch after that, and returns the incumbent, its value and the reasons. "
 "With no target given, the value never stops a run, and warm-start data never consume budget.",
 ["histories", "configurations"],
 "all evaluation budgets, batch and design sizes, targets, directions and value sequences, also resumed and warm-started runs",
 "Tests run with one budget and check only the evaluation count.",
 [B+"_base.py", B+"base.py"],
 [("stop test", B+"_base.py:check_stop,_compare"), ("run loop", B+"_base.py:run; "+B+"base.py:step")],
 ["check_stop()", "stop_dict", "run()", "calls of the objective function"])

prop("P08", "Saving and loading preserves the optimizer completely",
 "An optimizer restored from a file has the same history (points, values, names, counters), best-value record, stop reasons, settings and surrogate state as the saved one, and with the same random state it makes the same subsequent suggestions and reacts identically to further reports. "
 "Saving does not disturb the running optimizer, at any moment: before any data, between a request and its report, or after a stop. "
 "A save that fails leaves the optimizer usable and an earlier checkpoint file intact.",
 ["histories", "crash_points", "fault_sequences"],
 "all reachable states at which save is called, repeated save/load cycles, all optimizer classes, constraints and point formats; failing serialization",
 "One test saves once at the end and loads without comparing the state.",
 [B+"base.py", B+"utils/logger.py"],
 [("save / load", B+"base.py:save,load"), ("logger dump", B+"utils/logger.py")],
 ["state of the loaded and of the saved optimizer", "file contents after a failing save"])

prop("P09", "The multi-objective recommendation is exactly the non-dominated set",
 "At every moment the recommendation of a multi-objective optimizer consists of exactly the observed points that no other observation dominates, respecting the direction chosen for each objective, with each distinct objective vector listed once and every point paired with its own objective values. "
 "The record of fronts gains one entry per report, equal to the front at that time. "
 "This is independent of the scale and sign of the objectives.",
 ["histories", "configurations", "inputs"],
 "all sequences of objective vectors (ties, duplicates, mixed signs, different magnitudes, failed evaluations), all combinations of directions, two and three objectives",
 "Tests run one bi-objective minimization and never look at the recommendation.",
 [B+"mobo.py", B+"utils/multi_objective/pareto.py"],
 [("front of the history", B+"mobo.py:xopt,y"), ("non-domination test", B+"utils/multi_objective/pareto.py:is_non_dominated")],
 ["recommend()", "xopt", "hist_f"])

prop("P10", "Pareto, hypervolume and box-decomposition utilities are exact",
 "The non-domination utilities return exactly the non-dominated points, or the exact sequence of fronts, of any point set for the stated direction, with the documented treatment of duplicates, and leave their input unchanged. "
 "The hypervolume of a point set equals the measure of the region it dominates above the reference point, independent of the order of the points, of duplicates and (up to three objectives) of dominated points. "
 "The cells of the box decomposition are disjoint and together cover exactly the non-dominated region above the reference point, also after incremental updates.",
 ["inputs", "histories"],
 "all finite sets of points in two to four dimensions, including ties, duplicates, dominated points and points not better than the reference point; all orders of incremental updates",
 "Tests evaluate the utilities on a few fixed fronts.",
 [B+"utils/multi_objective/pareto.py", B+"utils/multi_objective/hypervolume.py", B+"utils/multi_objective/box_decompositions/non_dominated.py", B+"utils/multi_objective/box_decompositions/box_decomposition.py", B+"utils/utils.py"],
 [("non-domination", B+"utils/multi_objective/pareto.py; "+B+"utils/utils.py:is_pareto_efficient"), ("hypervolume", B+"utils/multi_objective/hypervolume.py:compute"), ("partitioning", B+"utils/multi_objective/box_decompositions/non_dominated.py")],
 ["returned index sets, volumes and cell bounds"])

prop("P11", "Acquisition functions prefer better predictions in the chosen direction",
 "Within floating-point range and for equal uncertainty, every acquisition function is non-decreasing as the predicted value improves in the optimization direction, and maximizing a function is treated exactly as minimizing its negation (mirrored predictions and incumbent give equal acquisition values). "
 "Improvement-based criteria are never negative, the probability of improvement stays within [0, 1], a better incumbent never increases any of them, and the confidence-bound and expected-improvement criteria never decrease with growing uncertainty. "
 "Probability of improvement, expected improvement, the confidence bound and the moment-generating criterion equal their defining formulas, and where a gradient is returned it is the derivative of the value. "
 "Expected hypervolume improvement equals the expected gain in dominated hypervolume under independent normal predictions, and with vanishing uncertainty the hypervolume improvement of the predicted vector.",
 ["inputs", "configurations"],
 "all predicted means, uncertainties, incumbents, criterion parameters and both directions",
 "Tests evaluate one criterion gradient at random points for minimization.",
 [B+"acquisition/acquisition_fun.py"],
 [("criteria", B+"acquisition/acquisition_fun.py:UCB,EI,PI,EpsilonPI,MGFI"), ("direction handling", B+"acquisition/acquisition_fun.py:_predict,_gradient,plugin")],
 ["values returned by the criteria"])

prop("P12", "Search-space algebra keeps every declaration intact",
 "Summing, subtracting, replicating, slicing, assigning, renaming, filtering, updating, removing and popping search spaces yields exactly the expected variables in the expected order with all their attributes (kind, range, levels, default, precision, scale, step), and the derived views (names, types, bounds, index sets per kind, dimension, levels) always describe the current variables. "
 "Operands of non-in-place operations are never changed and variable names stay unique. "
 "Exporting a space to a dictionary or JSON file and importing it again, copying it, or copying its variables one by one reproduces it, and importing does not alter its input. "
 "Two spaces are equal exactly if they consist of the same variables, and a space contains a variable exactly if it is one of its own.",
 ["programs", "inputs"],
 "all sequences of space operations over all variable kinds and attributes, including name collisions",
 "Tests exercise each operator once on small spaces and mostly print the result.",
 [B+"search_space/search_space.py", B+"search_space/variable.py"],
 [("operators", B+"search_space/search_space.py:__add__,__sub__,__mul__,__getitem__,__setitem__,filter,update,remove,pop,concat"), ("auxiliary views", B+"search_space/search_space.py:_set_data,_set_index,_set_levels"), ("description", B+"search_space/search_space.py:to_dict,from_dict,to_json,from_json")],
 ["variables and derived views of the operands and results"])

prop("P13", "Sampling returns the requested number of admissible points",
 "Without constraints a sample of n points has exactly n rows, each an admissible point of the space, for every sampling method, scale, precision and variable kind; with constraints it has at most n rows, all of them admissible and feasible within the given tolerance. "
 "A Latin-hypercube sample of n points places exactly one value of each real variable in each of the n equal slices of its (scaled) range, a Sobol sample of n = 2^k - 1 points in n different ones of n + 1 equal slices, and large samples reach every part of it; bounds that reach the end of the range on which a scale is defined are narrowed to it, and samples still vary over the whole of it. "
 "Every admissible value of a discrete variable can be drawn, and membership tests accept, among complete points, exactly those whose values lie in the declared range, step and levels.",
 ["inputs", "configurations"],
 "all spaces over the supported kinds, scales and precisions, all n and methods, all constraint functions and tolerances",
 "Tests sample a few spaces and check only for absence of errors.",
 [B+"search_space/search_space.py", B+"search_space/variable.py", B+"search_space/samplers.py"],
 [("sampling", B+"search_space/search_space.py:sample,_sample"), ("discrete sampling", B+"search_space/variable.py:sample"), ("constrained sampling", B+"search_space/samplers.py:SCMC"), ("membership", B+"search_space/search_space.py:__contains__")],
 ["arrays returned by sample()", "membership tests"])

prop("P14", "Solution containers keep points and their attributes aligned",
 "Whatever sequence of slicing, concatenation, replication, attribute assignment, conversion to and from dictionaries and CSV export is applied to a container of solutions, every row keeps its own objective values, evaluation count and index, and every column its own variable name. "
 "Concatenation aligns columns by name and keeps the order of rows; assigning an attribute of a row reaches the container the row was taken from and nothing else. "
 "Conversions to lists, dictionaries (either orientation, with or without index) and CSV reproduce exactly the contained data.",
 ["programs", "inputs"],
 "all sequences of container operations with rows of any kinds of values, single and multi-objective, one and two dimensional containers",
 "Tests slice a few fixed containers.",
 [B+"solution.py"],
 [("construction, slicing, concatenation", B+"solution.py:__new__,__getitem__,__add__,__mul__,__array_finalize__,__setattr__"), ("conversion", B+"solution.py:from_dict,to_dict,to_csv,unique")],
 ["contents and attributes of the containers", "CSV text"])

prop("P15", "Conditional variables are active exactly under their condition",
 "The unconditional subspaces of a conditional search space correspond one-to-one to the feasible combinations of branches, and each contains exactly the free variables and the variables active under those branches, with their declarations intact, each selector value being recorded. "
 "Every suggestion of the conditional optimizer assigns the selectors one such combination, admissible values to exactly the active variables and none to the inactive ones, every combination being proposed once before any repeats, and the surrogate of a combination learns from exactly the points reported for it. "
 "Slicing, removal and summation keep the conditions of the remaining variables, and reported points are recorded and counted like in any other optimizer, also when some combinations have only seen equal values.",
 ["configurations", "histories"],
 "all condition forests over selectors of any discrete kind (several children per branch, nested selectors, several trees), all histories of the conditional optimizer",
 "Tests use one fixed tree and check one subspace count.",
 [B+"search_space/node.py", B+"search_space/search_space.py", B+"extension.py"],
 [("tree operations", B+"search_space/node.py"), ("unconditional subspaces", B+"search_space/search_space.py:get_unconditional_subspace,_set_structure"), ("conditional optimizer", B+"extension.py:ConditionalBO")],
 ["subspaces", "suggestions and history of the conditional optimizer"])

prop("P16", "Seeded runs are reproducible and optimizers do not interfere",
 "Two optimizers built with equal settings and the same seed (zero included) and given the same reports make the same suggestions, in any process and whatever other optimizers or search spaces existed before. "
 "Creating or using one optimizer never changes the settings, the history or the acquisition parameters of another one, and no caller-supplied argument is modified. "
 "Building a search space without a seed, and slicing, querying or sampling any space or asking for points, does not reset the global random generator to a constant, so repeated requests and restarts do not repeat the same draws.",
 ["histories", "schedules", "configurations"],
 "all interleavings of operations on several optimizers and spaces, all seeds and settings, sequential execution",
 "Tests create one optimizer at a time.",
 [B+"_base.py", B+"base.py", B+"bayes_opt.py", B+"search_space/search_space.py", B+"acquisition/optim/one_plus_one_cma_es.py"],
 [("seeding", B+"_base.py:random_seed; "+B+"search_space/search_space.py:random_seed"), ("per-instance settings", B+"base.py:__init__; "+B+"bayes_opt.py:ParallelBO.__init__")],
 ["suggestions of the optimizers", "settings of the other optimizers", "state of the random generator"])

prop("P17", "The acquisition search returns its best admissible feasible candidate",
 "The inner optimizers only evaluate admissible points and return, without constraints, the best point they evaluated together with exactly its value; they respect their evaluation budget up to one population. "
 "The restarted search returns the best among the feasible results of its restarts, or nothing if none is feasible; it makes at most the given number of restarts, stops when the budget is used up or after the given number of restarts without improvement, and different restarts explore different points. "
 "Minimization and maximization are both supported.",
 ["inputs", "configurations", "histories"],
 "all objective functions, spaces, constraints, budgets, restart and wait limits, optimizers and seeds",
 "Tests run the inner optimizers on one convex function and compare nothing with the evaluated points.",
 [B+"acquisition/optim/__init__.py", B+"acquisition/optim/mies.py", B+"acquisition/optim/one_plus_one_cma_es.py"],
 [("restarts", B+"acquisition/optim/__init__.py:argmax_restart"), ("evolution strategy", B+"acquisition/optim/mies.py"), ("(1+1)-CMA-ES", B+"acquisition/optim/one_plus_one_cma_es.py")],
 ["points at which the objective is evaluated", "returned candidate and value"])

prop("P18", "Box reflection and constraint penalties are exact",
 "Mapping any point into a box yields a point inside the box, leaves points inside unchanged, and equals the mirror reflection at the bounds of each coordinate independently, for any number of coordinates and any distance; unbounded coordinates are left alone. "
 "The penalty of a point is zero exactly when all inequalities are at most zero and all equalities are within tolerance, is otherwise worse than zero in the given direction and follows the documented formula, and grows with the iteration number; each row of a batch gets its own penalty.",
 ["inputs"],
 "all points, boxes (finite, half-infinite), batches, constraint values, iteration numbers and directions",
 "Tests do not exercise these functions directly.",
 [B+"utils/utils.py"],
 [("reflection", B+"utils/utils.py:handle_box_constraint"), ("penalty", B+"utils/utils.py:dynamic_penalty")],
 ["returned arrays"])

prop("P19", "Runs evaluate each suggestion exactly once and pair it with its own value",
 "In every step of a run the objective is called exactly once for each suggested point, with the point in the configured format, and each point is recorded with the value computed for that very point, whether evaluation is sequential, parallel over several jobs, delegated to a user-supplied batch objective or split over several objectives. "
 "The order in which parallel evaluations finish does not matter. "
 "If the objective raises, the exception reaches the caller and no point of that batch is recorded or counted.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all completion orders of parallel evaluations, batch sizes, point formats, optimizer classes, objective failures at any evaluation",
 "Tests run parallel objectives that return the same kind of values and never compare them with the recorded points.",
 [B+"_base.py", B+"base.py", B+"mobo.py"],
 [("evaluation", B+"_base.py:evaluate; "+B+"mobo.py:evaluate"), ("step", B+"base.py:step")],
 ["calls of the objective function", "data"])

prop("P20", "fmin returns the true optimum it observed and its statistics",
 "The function interface minimizes the given function with its extra arguments over the given box: every point it evaluates is a numeric vector in the box, and the returned point and value are the best observed pair, supplied initial points included. "
 "The returned counts equal the number of iterations and of function evaluations made by them (supplied points without values are evaluated once each beforehand, in order, and are not counted; supplied values are not recomputed), every iteration but the initial design evaluates the requested number of points, and it stops exactly after the iteration in which the evaluation budget is reached or a value below the target is known. "
 "The returned per-iteration points are exactly the evaluated points in order, also when evaluations fail. With a seed the whole outcome is reproducible.",
 ["inputs", "configurations"],
 "all boxes, initial designs given as number, as points, or as points with values, batch sizes, budgets, targets, failing evaluations, extra arguments and seeds",
 "One test calls the function with one configuration and checks nothing.",
 [B+"__init__.py"],
 [("fmin", B+"__init__.py:fmin")],
 ["calls of the objective", "the returned tuple"])

prop("P21", "The data file contains exactly the recorded history",
 "When a data file is configured, after every report, including failed evaluations, warm-start data and reports after which the model update fails, the file holds one row per recorded observation in order of observation, with index, variable values in declaration order, evaluation count and objective values equal to those of the history. "
 "Rows already written are never changed or duplicated, and resuming or restarting appends after the existing content.",
 ["histories", "fault_sequences"],
 "all report sequences with any batch sizes, kinds of variables, failed evaluations, single and multi-objective",
 "No test looks at the file.",
 [B+"base.py", B+"mobo.py", B+"solution.py"],
 [("appending rows", B+"base.py:tell; "+B+"mobo.py:tell"), ("CSV export", B+"solution.py:to_csv")],
 ["text of the data file", "data"])

prop("P22", "User-set acquisition parameters reach the criterion and are scheduled",
 "Every acquisition criterion used in a search carries the parameters the user configured, or values sampled around them in batch optimizers, and is constructed for the configured direction and for the currently best model-scale value as incumbent. "
 "In the annealing optimizer the parameter starts at its configured initial value and changes once per model-based request according to the configured schedule, reaching the final value at the end of the budget for the exponential and linear schedules; the self-adaptive optimizer replaces it, after a model-based batch, by the mean of the values sampled for the better half of the candidates; other optimizers keep it constant. "
 "Neither the caller's parameter mapping nor class-wide defaults are ever changed.",
 ["configurations", "histories"],
 "all criteria, parameter values, schedules, directions, batch sizes and histories",
 "Tests never observe the parameters a criterion is built with.",
 [B+"base.py", B+"bayes_opt.py", B+"extension.py"],
 [("criterion construction", B+"base.py:_create_acquisition; "+B+"bayes_opt.py:_create_acquisition"), ("batch sampling of parameters", B+"bayes_opt.py:_batch_arg_max_acquisition"), ("annealing", B+"bayes_opt.py:AnnealingBO")],
 ["parameters of the criteria built during ask()"])

prop("P23", "The surrogate is always fitted to the complete current history",
 "After every report that adds data the surrogate has been fitted on all recorded points in order, each with its own value standardized over the whole history (several objectives: each scaled to its range, reversed where the optimizer maximizes internally), and on nothing else; afterwards and only then are suggestions model-based. "
 "The incumbent value handed to the criterion is the best rescaled value in the chosen direction. "
 "The random-forest surrogate encodes categorical values by their declared levels, so predictions depend on the value of a variable and not on the composition of the queried batch.",
 ["histories", "configurations"],
 "all report sequences (ties, failed evaluations, different magnitudes), warm-start data, single and multi-objective, all categorical levels and query batches",
 "Tests only check that a fitted model exists.",
 [B+"base.py", B+"mobo.py", B+"surrogate/random_forest.py"],
 [("model update", B+"base.py:update_model; "+B+"mobo.py:update_model,y"), ("encoding", B+"surrogate/random_forest.py:_check_X")],
 ["arguments of the surrogate's fit", "predictions of the random forest"])

prop("P26", "The PCA-assisted optimizer reduces and restores coordinates faithfully",
 "Whatever is reported to the PCA-assisted optimizer is recorded, counted and ranked like in any other optimizer, in the original coordinates; its first design lies in the declared box and its later suggestions are images of points of the reduced space. "
 "After every report the reduced space covers the image of the whole box, the surrogate is fitted on the reduced images of all recorded points and their values in order, and the linear map depends on the values only through their ranks in the chosen direction (weights ln N - ln rank, ties sharing the mean rank): reordering the points, increasing changes of the values and mirrored directions change nothing. "
 "Mapping forth and back is exact on the kept components, which are orthonormal. The criterion it maximizes equals the plain criterion at points whose image lies in the box and minus their total distance from the box elsewhere, its gradient being the slope of that penalty.",
 ["histories", "inputs"],
 "all boxes, component settings, report sequences (ties, failed evaluations) and reduced points",
 "No test touches this optimizer.",
 [B+"extension.py"],
 [("linear map", B+"extension.py:LinearTransform"), ("penalized criterion", B+"extension.py:penalized_acquisition"), ("optimizer", B+"extension.py:PCABO")],
 ["suggestions", "history, counters and best point", "arguments of the surrogate's fit", "values of the penalized criterion"])

prop("P24", "Gaussian-process predictions are numerically accurate",
 "The mean, variance and gradients predicted by the Gaussian-process surrogate agree with the exact posterior of the fitted kernel and trend up to floating-point error.",
 ["inputs"], "all training sets, kernels, trends and query points",
 "Tests compare gradients at random points with a loose tolerance.",
 [B+"surrogate/gaussian_process/gpr.py"], [("posterior", B+"surrogate/gaussian_process/gpr.py:predict,gradient")],
 ["predict()"])
prop("P25", "Optimization makes progress on real objectives",
 "On well-behaved objectives the expected best value found within a budget is better than that of uniform random search with the same budget.",
 ["inputs", "configurations"], "all well-behaved objectives, budgets and seeds",
 "Statistical statement; tests run single seeds.",
 [B+"base.py"], [("acquisition-driven search", B+"base.py:arg_max_acquisition")], ["best value after a run"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
