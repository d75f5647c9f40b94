PROPS = []
NA = {}


def P(id, title, statement, over, text, why, files, mech, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **k))


P("C01", "Sampled points always lie in the declared search space",
  "Every point drawn from a search space, for any sample size, sampling method, variable type, bounds, scale, precision and step and for "
  "every outcome of the random generator, has one coordinate per variable, in order, and each coordinate is a value its variable may take: "
  "inside the bounds, of the right kind, on the declared precision or step grid, or one of the declared levels.",
  ["inputs", "configurations"], "all bounds, all generator outcomes, every variable type, scale, precision, step, sampling method",
  "the tests draw a few points with one seed from fixed spaces; rare generator outcomes and other bounds are not reached",
  ["bayes_optim/search_space/search_space.py", "bayes_optim/search_space/variable.py", "bayes_optim/search_space/samplers.py"],
  [("per-type sampling", "search_space.py:_sample of each typed space"), ("precision rounding and clipping", "variable.py:Real.round"),
   ("scaling", "variable.py:TRANS, INV_TRANS")], observe=["SearchSpace.sample", "RealSpace.sample", "IntegerSpace.sample"])

P("C03", "Rounding, rescaling and box repair return the nearest admissible point",
  "Rounding a point to the declared precision gives, for every point and precision, a value on the grid and inside the bounds that is no "
  "farther than half a grid step from a point that was inside, leaves every non-real coordinate and the caller's data untouched, and is "
  "idempotent when the bounds are on the grid. Mapping a scaled point back to the linear scale undoes the scaling. Repairing a point that "
  "left the box gives a point inside the box: feasible coordinates are unchanged, others are reflected at the bound they crossed, and "
  "coordinates without two finite bounds are left alone.",
  ["inputs", "configurations"], "all values, bounds, precisions and scales; points up to three box widths outside",
  "the property is about every real number near a bound or between two grid points; tests take a few values",
  ["bayes_optim/search_space/variable.py", "bayes_optim/search_space/search_space.py", "bayes_optim/utils/utils.py"],
  [("rounding", "variable.py:Real.round, search_space.py:SearchSpace.round"), ("scaling", "variable.py:TRANS/INV_TRANS, search_space.py:to_linear_scale"),
   ("box repair", "utils.py:handle_box_constraint")], observe=["SearchSpace.round", "SearchSpace.to_linear_scale", "handle_box_constraint"])

P("C05", "Search-space algebra keeps the right variables and consistent derived data",
  "Adding, concatenating, subtracting, replicating, slicing, filtering, updating, replacing, renaming, popping and removing variables gives "
  "a space holding exactly the expected variables in the expected order, with distinct names (a name that does not collide is kept), and "
  "with dimension, names, types, bounds, levels, index lists and masks that agree with its variables; operands that the operation does not "
  "update in place keep their variables and names.",
  ["inputs", "programs"], "all name collisions, variable types and numeric bounds, every operation",
  "tests cover a few spaces with fixed names; the errors need particular name collisions, types or orders",
  ["bayes_optim/search_space/search_space.py"],
  [("arithmetic", "search_space.py:__add__, __iadd__, __sub__, __isub__, __mul__, __imul__, concat, update"),
   ("indexing", "search_space.py:__getitem__, __setitem__, pop, remove, filter"), ("derived attributes", "search_space.py:_set_data, _set_index, _set_levels, var_name")],
  observe=["SearchSpace.data", "SearchSpace.var_name", "SearchSpace.bounds", "SearchSpace.categorical_id"])

P("C06", "Equality, hashing and membership of variables, spaces and points",
  "Two variables are equal exactly when type, name, range, default and type-specific options (precision, scale, step) agree, equal "
  "variables hash alike; two spaces are equal exactly when they hold equal variables in any order; a point given as a list or dict is in a "
  "space exactly when each coordinate is a value inside its variable's range.",
  ["inputs", "configurations"], "all bounds and attribute combinations, all orders of variables, all points",
  "equality and membership must be right on boundary values and for every single-attribute difference, not for the sampled pairs",
  ["bayes_optim/search_space/variable.py", "bayes_optim/search_space/search_space.py"],
  [("variable equality", "variable.py:Variable.__eq__, __hash__"), ("membership", "variable.py:__contains__"), ("space equality and membership", "search_space.py:__eq__, __contains__")],
  observe=["Variable.__eq__", "SearchSpace.__eq__", "SearchSpace.__contains__"])

P("C07", "Dictionary and JSON descriptions of search spaces are faithful",
  "A space built from a dictionary has, for each entry and in order, N variables with the described type, range, precision, scale, step and "
  "default; the dictionary is not modified; an invalid entry is reported rather than dropped; and writing a space to a dictionary or JSON "
  "file and reading it back gives the same variables under the same names.",
  ["inputs", "configurations"], "every type name, optional key, replication factor and numeric range",
  "the combinations of optional keys and types are many, tests use a handful of fixed dictionaries",
  ["bayes_optim/search_space/search_space.py"],
  [("parsing", "search_space.py:from_dict, from_json"), ("writing", "search_space.py:to_dict, to_json")],
  observe=["SearchSpace.from_dict", "SearchSpace.to_dict", "SearchSpace.from_json"])

P("C08", "Solution keeps points, objective values, counts and names together",
  "Building, indexing, slicing, selecting by lists or masks, concatenating, repeating, iterating, sorting out columns, converting to lists or "
  "dictionaries and writing to a CSV file keep every row's values (with their types), objective values, evaluation count and index, and the "
  "columns' names, together: row i of the result carries exactly the attributes of the row it was taken from; concatenation aligns "
  "variables by name; and assigning an attribute of a row changes it in the container it was taken from.",
  ["inputs", "programs"], "all values, all indices, slices, index lists and masks within the container, one or two objectives",
  "the container overloads numpy indexing, whose combinations of row and column selectors tests only sample",
  ["bayes_optim/solution.py"],
  [("indexing", "solution.py:Solution.__getitem__, __setitem__"), ("concatenation", "solution.py:__add__, __radd__, __mul__"), ("conversion", "solution.py:to_dict, from_dict, to_csv")],
  observe=["Solution.fitness", "Solution.n_eval", "Solution.var_name", "Solution.to_dict"])

P("C09", "ask proposes new, admissible points that respect the fixed variables",
  "Whatever has been evaluated, ask returns at least one and at most the requested number of points (exactly as many when the drawn or "
  "optimised candidates are new and distinct), as lists or as dictionaries keyed by variable name; each lies in the search space with the "
  "declared precision and step, carries the requested value in every fixed variable, and, unless the optimizer is for noisy functions, is "
  "neither an evaluated point nor a repetition within the batch. New maximisers of the acquisition function are proposed as they are; "
  "only the free variables are optimised; AskEmptyError is raised only if nothing new was drawn; asking changes no data.",
  ["inputs", "histories"], "all histories of up to two points, all candidates the inner optimiser may return, all samples, fixed subsets and values",
  "duplicates, failed inner optimisations and fixed variables interact only for particular candidates and histories",
  ["bayes_optim/base.py", "bayes_optim/bayes_opt.py", "bayes_optim/utils/utils.py"],
  [("proposal", "base.py:ask, arg_max_acquisition, create_DoE"), ("duplicate removal", "bayes_opt.py:BO.pre_eval_check"), ("fixed variables", "utils.py:fillin_fixed_value, partial_argument")],
  observe=["BaseBO.ask"])

P("C10", "tell records exactly what was evaluated and reports the best point",
  "After any sequence of tell calls (points as lists, dictionaries in any key order or Solutions, with failed evaluations anywhere) and warm "
  "data, the optimizer's data are exactly the successful evaluations in order, each with its own value and counted once; eval_count counts "
  "every told point but no warm data; the reported best point is a point with the best value in the declared direction, the first one on "
  "ties, and never gets worse; the model is fitted to all of these points with outputs in the same order as the objective values.",
  ["inputs", "histories"], "all histories of up to three calls, all values, NaN and infinite values at any position",
  "the bookkeeping must hold for every history; tests tell one or two fixed batches",
  ["bayes_optim/base.py", "bayes_optim/_base.py", "bayes_optim/solution.py"],
  [("recording", "base.py:tell, post_eval_check, update_model"), ("best point", "_base.py:xopt, _get_best")], observe=["BaseBO.data", "BaseBO.xopt", "BaseBO.eval_count"])

P("C02", "Sampling under constraints returns feasible points only",
  "Whatever values the equality constraints h and inequality constraints g take, every point returned by sampling under constraints "
  "satisfies g <= 0 and |h| <= tol in every component, is one of the candidates drawn from the space, and is returned once; as many feasible "
  "candidates are returned as there are, up to the number requested; the constraints are only evaluated inside the search space; a constraint that raises is reported.",
  ["inputs", "configurations"], "all constraint values (scalar, list or array), one or two constraints of each kind, all generator outcomes",
  "feasibility must hold for every constraint function and candidate; tests use one fixed constraint",
  ["bayes_optim/search_space/search_space.py", "bayes_optim/search_space/samplers.py"],
  [("feasibility filter", "search_space.py:SearchSpace.sample"), ("Metropolis-Hastings steps", "samplers.py:SCMC.sample")], observe=["SearchSpace.sample"])

P("C33", "Constrained sampling moves by the Metropolis-Hastings rule",
  "Sampling under constraints runs a Markov chain from the first sample through levels of decreasing tolerance, down to an eighth of the requested one: in every round each point is moved one "
  "coordinate at a time, the candidate differing from the current point in that coordinate only, and the candidate is taken exactly when its own uniform draw is at most the ratio of the densities "
  "P(x) prod_j Phi(-c_j(x)/nu) of candidate and current point at the current level nu.",
  ["inputs", "histories"], "all current points, proposals, constraint offsets, target densities and acceptance draws; one or two points, variables, constraints, rounds and levels",
  "a wrong acceptance rule still returns points and, after the final filter, feasible ones: it only biases the sample",
  ["bayes_optim/search_space/samplers.py"], [("acceptance", "samplers.py:SCMC._metropolis_hastings"), ("density", "samplers.py:SCMC._log_posterior"), ("levels", "samplers.py:SCMC.sample")],
  observe=["SCMC.sample"])

P("C04", "Inner optimisers and constrained sampling never leave the search space",
  "Starting from any admissible point, with any step size, objective values and generator outcomes, every point that MIES, the (1+1)-CMA-ES "
  "variants and the sequential Monte-Carlo sampler evaluate or return is a point of the search space: inside the bounds, on the declared "
  "precision or step grid, one of the declared levels, and of the variable's own kind; MIES recombination takes each coordinate from a parent.",
  ["inputs", "histories"], "all current points, step sizes, objective values and generator outcomes; one generation or step from an arbitrary state",
  "leaving the box, the grid or the levels needs particular draws and step sizes",
  ["bayes_optim/acquisition/optim/mies.py", "bayes_optim/acquisition/optim/one_plus_one_cma_es.py", "bayes_optim/search_space/samplers.py", "bayes_optim/utils/utils.py"],
  [("mutation and recombination", "mies.py:mutate, recombine"), ("CMA step", "one_plus_one_cma_es.py:ask, tell"), ("proposals", "samplers.py:SCMC._rproposal"),
   ("box repair", "utils.py:handle_box_constraint")], observe=["MIES.optimize", "OnePlusOne_CMA.run", "SCMC.sample"])

P("C11", "run stops exactly when the budget is used up or the target is met",
  "For every sequence of objective values, run evaluates whole batches (the initial design first) and stops after the first batch at which the "
  "number of evaluations reaches max_FEs or the best value is strictly better than ftarget, in the direction being optimised; the stop "
  "dictionary names exactly the reasons that hold; each point is passed to the objective in the declared form, a parallel objective gets "
  "each batch in one call; and the best point evaluated is returned with its value.",
  ["inputs", "histories"], "all objective values, with or without any target, minimisation and maximisation",
  "the stopping decision depends on the order and size of all values; tests run one fixed function",
  ["bayes_optim/base.py", "bayes_optim/_base.py"],
  [("loop", "_base.py:run, step"), ("stopping rule", "_base.py:check_stop"), ("evaluation", "base.py:evaluate")], observe=["BO.run", "BO.check_stop"])

P("C12", "Maximising f is the same as minimising -f",
  "Given the same points, parameters and generator outcomes, an optimizer that maximises f takes the mirror image of every decision of one that "
  "minimises -f: the same best point with the opposite value, the same stopping decision, opposite model outputs, equal acquisition values and "
  "gradients, opposite constraint penalties, and the same best point of the inner optimisers.",
  ["inputs", "histories"], "all objective values, predictions, constraint values and targets",
  "a sign error shows only for particular orders of values and only in one direction",
  ["bayes_optim/base.py", "bayes_optim/_base.py", "bayes_optim/acquisition/acquisition_fun.py", "bayes_optim/acquisition/optim/one_plus_one_cma_es.py",
   "bayes_optim/acquisition/optim/mies.py", "bayes_optim/utils/utils.py"],
  [("best point", "_base.py:xopt"), ("criteria", "acquisition_fun.py"), ("penalty", "utils.py:dynamic_penalty")], observe=["BO.xopt", "EI.__call__"])

P("C13", "Acquisition functions compute the criterion they are named after",
  "For every predicted value, positive uncertainty, best value and parameter, in both directions, EI, PI, epsilon-PI, UCB and MGFI return the "
  "published criterion; they are non-negative where defined so (PI a probability), a better prediction never has a smaller UCB or PI; "
  "without a plugin the best of the model's data is used; and the optimizers hand the inner optimiser the configured criterion "
  "with the configured parameters and the best (normalised) value observed so far, leaving the caller's parameters unchanged.",
  ["inputs", "configurations"], "all predictions, uncertainties, plugins and parameters, both directions",
  "the criteria are formulas over all real inputs, tests evaluate them at a few points or not at all",
  ["bayes_optim/acquisition/acquisition_fun.py", "bayes_optim/base.py", "bayes_optim/bayes_opt.py"],
  [("criteria", "acquisition_fun.py:EI, PI, EpsilonPI, UCB, MGFI"), ("configuration", "base.py:_create_acquisition")], observe=["EI.__call__", "BO.ask"])

P("C14", "Gradients given to the inner optimiser are the derivatives of the values",
  "For every prediction, uncertainty, gradient of the model and parameter, the gradient EI, PI, epsilon-PI, UCB and MGFI return is the "
  "derivative of the value they return, which does not depend on whether the gradient is asked for; with fixed variables the criterion is "
  "that of the completed point and the gradient that of the free variables in order; and what L-BFGS-B minimises is the negated criterion, "
  "penalised exactly when a constraint is violated, with the matching gradient.",
  ["inputs", "configurations"], "all predictions, standard deviations and model gradients, both directions, any fixed variable",
  "a wrong factor or sign in a derivative still lets L-BFGS-B return points, so tests pass",
  ["bayes_optim/acquisition/acquisition_fun.py", "bayes_optim/acquisition/optim/__init__.py", "bayes_optim/base.py", "bayes_optim/utils/utils.py"],
  [("derivatives", "acquisition_fun.py:__call__(return_dx=True)"), ("fixed variables", "utils.py:partial_argument"), ("penalty", "optim/__init__.py:Penalized")],
  observe=["EI.__call__", "Penalized.__call__"])

P("C19", "The acquisition optimiser returns the best feasible candidate within its budget",
  "Whatever the restarts of the inner optimiser return, argmax_restart returns a point one of them found, in the search space, together with the "
  "criterion value found for it: the largest one among the feasible candidates, and a feasible candidate whenever there is one; it "
  "starts every restart at a point of the search space, stops at the evaluation budget or after the given number of fruitless restarts, "
  "and never makes more restarts than allowed; constraints may return numbers, lists or arrays, and logging is optional.",
  ["inputs", "histories"], "all results, values, constraint values and evaluation counts of up to four restarts, every inner optimiser",
  "the winner depends on the order of all values and feasibilities; tests only see the outcome of real runs",
  ["bayes_optim/acquisition/optim/__init__.py"],
  [("restarts", "optim/__init__.py:argmax_restart")], observe=["argmax_restart"])

P("C20", "The penalty is zero exactly on feasible points and follows its formula",
  "For every point and constraint value the dynamic penalty is (C t)^alpha times the sum of |h| over the equality constraints beyond the tolerance and "
  "of g^beta over the positive inequality constraints, with the sign that makes it bad in the direction being optimised; it is zero exactly if no constraint is violated and is computed per point; "
  "constraints may return numbers, lists or arrays, and one that fails is reported; in an optimizer they get whole points whatever the variable types are.",
  ["inputs", "configurations"], "all constraint values, coefficients and iterations, one or two constraints of each kind",
  "feasible-looking points near the threshold and mixed violations are not in the tests",
  ["bayes_optim/utils/utils.py", "bayes_optim/base.py"], [("penalty", "utils.py:dynamic_penalty"), ("use in the optimizer", "base.py:tell")],
  observe=["dynamic_penalty", "BO.tell"])

P("C21", "Inner optimisers report the best point they evaluated and stay consistent",
  "After any history of objective and constraint values, the (1+1)-CMA-ES variants and MIES report the best (penalised) value seen (from a given or a drawn start) "
  "with the point that has it, in either direction, count every evaluation, and stop at the budget or target; restarts keep the best point and are made at most as often as "
  "allowed; the covariance of the (1+1)-CMA-ES follows its published update and its Cholesky factor and inverse factor belong to it; the step size "
  "grows exactly after a success rate above the target; MIES keeps the best individuals of parents and offspring its selection scheme allows.",
  ["inputs", "histories"], "all objective and constraint values, steps, evolution paths and success rates within the stated numbers of steps",
  "an inner optimiser with a wrong best point or factor still converges a bit; the tests only check that it ends",
  ["bayes_optim/acquisition/optim/one_plus_one_cma_es.py", "bayes_optim/acquisition/optim/mies.py"],
  [("best point", "one_plus_one_cma_es.py:tell, mies.py:optimize, update"), ("covariance", "one_plus_one_cma_es.py:_update_covariance, _update_step_size"), ("selection", "mies.py:select")],
  observe=["OnePlusOne_CMA.run", "MIES.optimize"])

P("C22", "Fixed variables are filled in at their own places, callbacks get whole points",
  "For every subset of variables fixed to any values, the points proposed carry these values at these variables and free values elsewhere, "
  "criteria, constraints and sampling are evaluated at the completed point, gradients are those of the free variables in order, and "
  "objective and constraint callbacks get points of the declared form (list or dict by name).",
  ["inputs", "configurations"], "all subsets of fixed variables, all values, one or two points, lists, arrays, Solutions and dicts",
  "a misplaced value needs a particular position of the fixed variables; the tests fix one variable",
  ["bayes_optim/utils/utils.py", "bayes_optim/base.py"],
  [("filling in", "utils.py:fillin_fixed_value, partial_argument"), ("form of the points", "utils.py:func_with_list_arg"), ("use", "base.py:create_DoE, __set_argmax")],
  observe=["BO.ask", "partial_argument", "func_with_list_arg"])

P("C23", "Saving and loading keeps the optimizer's state; saving never harms it",
  "An optimizer loaded from a file has the data, values, counters, history, best point, settings and stopping behaviour of the one saved, and goes on "
  "the same way; the saved optimizer itself is unchanged, whichever serialisation step fails; saving twice writes the latest state.",
  ["inputs", "histories", "fault_sequences"], "all recorded values, saves before and after tell, an exception at every serialisation call",
  "tests save one optimizer once and never fail inside a save",
  ["bayes_optim/base.py", "bayes_optim/_base.py"], [("save and load", "base.py:save, load"), ("logger", "_base.py:logger")], observe=["BO.save", "BO.load"])

P("C24", "ConditionalBO proposes consistent points and records what it is told",
  "For every conditional space, each proposed point has a value for every variable: an admissible one for those active under its selectors, "
  "None for the others; every subspace is tried once before any is tried again; everything told is counted, recorded once with its value, "
  "handed to the optimizer of its own subspace without foreign variables, and the best is reported; failed evaluations are counted but not recorded.",
  ["inputs", "histories"], "all values, generator outcomes and subspace choices, batches of up to three",
  "tests check that a run ends; a mixed-up subspace or a dropped value 0 does not stop it",
  ["bayes_optim/extension.py"], [("subspaces", "extension.py:ConditionalBO.ask, tell")], observe=["ConditionalBO.ask", "ConditionalBO.tell"])

P("C31", "Conditional structures keep their trees and unfold into the right subspaces",
  "For every tree of variables, removing or keeping names, copying, listing nodes and paths and converting to and from dictionaries keep exactly the right nodes, branches and conditions and leave the original "
  "alone; a conditional space unfolds into exactly one subspace per combination of selector values, each containing every variable "
  "active under it (and none that is not) with its own bounds; the conditions survive slicing, adding and removing in whatever order variables and entries are given.",
  ["inputs", "programs", "configurations"], "every tree of up to five nodes, every set of names, all bounds and orders of variables",
  "the tests use one or two hand-written trees",
  ["bayes_optim/search_space/node.py", "bayes_optim/search_space/search_space.py"],
  [("trees", "node.py:Node"), ("unfolding", "search_space.py:get_unconditional_subspace"), ("structure", "search_space.py:_set_structure")],
  observe=["Node.remove", "SearchSpace.get_unconditional_subspace"])

P("C15", "Gaussian-process predictions, gradients and likelihood follow their formulas",
  "For all training data, inputs and kernel parameters: the correlation functions (exponential, squared exponential, cubic, Matern, "
  "generalised exponential) equal their definitions; a noiseless Gaussian process interpolates its data with zero variance there, and mean and variance elsewhere are those of (simple or ordinary) "
  "kriging, with a nugget or estimated noise too, also when computed in batches; gradients and Hessians are the derivatives of the mean and variance, at training points too; the likelihood and the gradient "
  "handed to the hyper-parameter optimiser (concentrated or restricted) are those of one function, and the best restart is taken; trends and their Jacobians agree.",
  ["inputs", "configurations"], "all data, kernel parameters and query points; one or two training points in one or two dimensions, every kernel and noise mode",
  "tests check that predictions have the right shape; a wrong factor in a kernel or gradient only slows the optimizer down",
  ["bayes_optim/surrogate/gaussian_process/gpr.py", "bayes_optim/surrogate/gaussian_process/kernel.py", "bayes_optim/surrogate/gaussian_process/trend.py", "bayes_optim/surrogate/gaussian_process/utils.py"],
  [("kernels", "kernel.py"), ("prediction", "gpr.py:predict, gradient"), ("likelihood", "gpr.py:log_likelihood_function")],
  observe=["GaussianProcess.predict", "GaussianProcess.gradient", "GaussianProcess.log_likelihood_function"])

P("C34", "The scikit-learn GP wrapper and the quality measures follow their definitions",
  "For all data of the declared dimensions (others are rejected), the wrapper of scikit-learn's Gaussian process fits one model per objective to all points and that objective's values, predicts objective by objective and returns "
  "squared deviations; its gradients are the derivatives of the predicted mean and variance for all supported kernels, any number of points and variables; SMSE is the mean squared error in units of the variance of the targets, "
  "MSLL the mean log loss of the predictions minus that of the training mean and variance, and neither changes the caller's data.",
  ["inputs", "configurations"], "all query points, training values, predictions and variances; kernels Matern 1/2, 3/2, 5/2 and RBF; one or two variables, objectives and points",
  "no test uses the wrapper or the measures; a wrong factor in a gradient is only visible against the derivative",
  ["bayes_optim/surrogate/gaussian_process/__init__.py", "bayes_optim/surrogate/gaussian_process/utils.py"],
  [("wrapper", "gaussian_process/__init__.py:GaussianProcessSklearn"), ("measures", "gaussian_process/utils.py:SMSE, MSLL")],
  observe=["GaussianProcessSklearn.fit", "GaussianProcessSklearn.predict", "GaussianProcessSklearn.gradient", "SMSE", "MSLL"])

P("C29", "Random-forest and aggregated surrogates combine their members correctly",
  "For all tree predictions, the forest's mean is the average over its trees and its squared error their sample variance at each point, in the order of the points; numeric inputs reach the trees unchanged and in order, "
  "categorical ones as one indicator column per declared level; an aggregate of surrogates predicts the weighted sum of its members' means with the squared-weight sum of their squared errors.",
  ["inputs", "configurations"], "all tree outputs and weights, all mixed points of the stated shapes",
  "tests only check that the surrogates run",
  ["bayes_optim/surrogate/random_forest.py"], [("prediction", "random_forest.py:RandomForest.predict"), ("encoding", "random_forest.py:_check_X"), ("aggregation", "random_forest.py:SurrogateAggregation")],
  observe=["RandomForest.predict", "SurrogateAggregation.predict"])

P("C27", "fmin returns the best point, the counters and the trial points of its run",
  "For every objective function, fmin evaluates vectors inside the given bounds (scalars or lists) with the extra arguments given, returns the least value seen (initial points included) and the point that has it, the "
  "number of iterations and of evaluations made, and for each iteration in order exactly the points generated in it; initial points are evaluated once unless their values are given; it stops with the "
  "iteration that exhausts the budget and seeds the generator with the seed given, zero included.",
  ["inputs", "configurations"], "all objective values, bounds and trial points; one or two variables, up to three initial points, one or two points per iteration",
  "the tests call fmin once and look at the best value only",
  ["bayes_optim/__init__.py", "bayes_optim/_base.py"], [("fmin", "__init__.py:fmin")], observe=["fmin"])

P("C28", "Every iteration optimises the criterion that is configured, scheduled or adapted",
  "In each iteration the inner optimiser gets, for each point asked for, the configured acquisition function of the current model with the configured parameters, the right direction, and, unless given, the "
  "best value so far (the best predicted value at the data for noisy problems); in batches each point has its own parameter drawn around the configured one, which itself stays as it is; "
  "annealing moves the parameter from its initial to its final value over the budget following the chosen schedule; self-adaptation sets it to the mean of those of the better half; several criteria take turns.",
  ["inputs", "configurations", "histories"], "all parameters, normal deviates, best values and criterion values; batches of two to four points, up to four iterations",
  "a wrong plugin, parameter or schedule still gives points, so tests pass",
  ["bayes_optim/bayes_opt.py", "bayes_optim/extension.py", "bayes_optim/base.py"],
  [("criterion", "base.py:_create_acquisition, bayes_opt.py:BO._create_acquisition"), ("batches", "bayes_opt.py:_batch_arg_max_acquisition"), ("schedules", "bayes_opt.py:AnnealingBO")],
  observe=["ask (the criterion given to argmax_restart)"])

P("C30", "Optimizers do not influence each other, nor the caller's data",
  "Whatever one optimizer is asked and told, another one, built before or after with the same arguments, behaves as if it were alone; dictionaries, points, values and fixed values passed in are not modified, "
  "changing lists or dicts after telling them or points after asking for them does not change what the optimizer remembers, and the search space of the caller stays as it is.",
  ["inputs", "programs"], "all parameters, points and values, every batch optimizer, points as lists, dicts, arrays and Solutions",
  "sharing shows only when two optimizers are used in one process or an argument is used again",
  ["bayes_optim/base.py", "bayes_optim/bayes_opt.py"], [("parameters", "base.py:__init__"), ("copies", "base.py:tell, ask")], observe=["ask", "tell"])

P("C35", "The daemon helper starts once, stops only its own process and cleans up",
  "For every state of the process file (absent, empty, unreadable, any process number) and every sequence of outcomes of fork and kill: a daemon whose file holds a number is not started again; otherwise only the grandchild, in a session "
  "of its own, writes its number and runs once with the arguments of start, a failed fork is reported; stop signals only the process of the file, until it is gone, then removes the file, and reports a process it may not signal; "
  "a file without a number is removed and no error; at exit only the owner removes the file; asking for the state changes nothing.",
  ["fault_sequences", "histories", "inputs"], "all process numbers and states of the process file, all outcomes of up to two forks and thirteen signals",
  "no test uses the daemon, and its failures depend on what fork, kill and the file return",
  ["bayes_optim/utils/_daemon.py"], [("life cycle", "_daemon.py:Daemon.start, daemonize, stop, restart"), ("process file", "_daemon.py:Daemon.get_pid, is_running, delpid")],
  observe=["Daemon.start", "Daemon.stop", "Daemon.is_running"])

P("C16", "Pareto routines return exactly the non-dominated points and fronts",
  "For every finite set of objective vectors, ties and duplicates included, the Pareto routines return exactly the points no other point dominates - one (the first, where a mask is returned) per group of "
  "equal points, or all of them when duplicates are to be kept - and the fast non-dominated sort puts every point in exactly one front, the fronts being the successive non-dominated layers in order; "
  "the arrays handed in are not modified.",
  ["inputs"], "all objective values (ties and duplicates included), two to five points in two and three objectives",
  "tests compare a handful of point sets without ties; mistakes need equal coordinates or a particular order",
  ["bayes_optim/utils/multi_objective/pareto.py", "bayes_optim/utils/utils.py"],
  [("masks", "pareto.py:is_non_dominated, utils.py:is_pareto_efficient"), ("fronts", "pareto.py:fast_non_dominated_sort, non_dominated_set_2d")],
  observe=["is_non_dominated", "is_pareto_efficient", "fast_non_dominated_sort", "non_dominated_set_2d"])

P("C17", "The hypervolume is the volume dominated above the reference point",
  "For every set of points and every reference point, the computed hypervolume is the volume of the union of the boxes between the reference point and the points (maximisation): points not better than the "
  "reference point, dominated points and duplicates add nothing, the order of the points does not matter; computing it again gives the same value, and the reference point and the points are unchanged.",
  ["inputs"], "all coordinates and reference points, up to four points in two and three in three objectives",
  "the tests compare a few published fronts; ties, duplicates and points below the reference are other paths of the recursion",
  ["bayes_optim/utils/multi_objective/hypervolume.py"], [("hypervolume", "hypervolume.py:Hypervolume.compute")], observe=["Hypervolume.compute"])

P("C18", "Box decompositions partition exactly the non-dominated space",
  "For every set of observations and reference point, the cells of a box decomposition are boxes above the reference point that do not overlap, contain no dominated point and together cover every "
  "non-dominated point above the reference; the Pareto front kept is that of all observations given so far, in one go or by updates; the hypervolume it reports is the dominated volume.",
  ["inputs", "histories"], "all coordinates and reference points, two and three objectives, up to three observations, updates and batches",
  "tests use fixed fronts; the decomposition branches on every order and tie of the coordinates",
  ["bayes_optim/utils/multi_objective/box_decompositions/box_decomposition.py", "bayes_optim/utils/multi_objective/box_decompositions/non_dominated.py",
   "bayes_optim/utils/multi_objective/box_decompositions/utils.py"],
  [("cells", "non_dominated.py:NondominatedPartitioning, FastNondominatedPartitioning"), ("update", "box_decomposition.py:update"), ("local upper bounds", "utils.py:compute_local_upper_bounds")],
  observe=["NondominatedPartitioning.get_hypercell_bounds", "FastNondominatedPartitioning.get_hypercell_bounds", "compute_hypervolume"])

P("C32", "EHVI is the expected hypervolume improvement of the model's prediction",
  "For every Pareto front, reference point and prediction of independent normal objectives, the criterion maximised by multi-objective BO equals the expectation of the hypervolume gained by the candidate.",
  ["inputs"], "all fronts of up to two points in two objectives, all means and deviations; the normal distribution and density as uninterpreted functions",
  "tests only check that the criterion returns a number",
  ["bayes_optim/multi_objective/analytic.py"], [("criterion", "multi_objective/analytic.py:EHVI.forward")], observe=["EHVI.__call__"])

P("C25", "PCA-BO searches, penalises and remembers in terms of the original problem",
  "For every set of evaluated points and principal axes: the axes are fitted to the centred points weighted by rank (better points more, in the direction of the optimisation); mapping to the reduced space and back is the orthogonal "
  "projection; the reduced search box holds the image of the whole original box; the criterion counts inside the original box and is minus the distance to it (with its gradient) outside; proposals are points of the original "
  "space; everything told is counted and recorded, the model gets the reduced points and the best is reported, also if evaluations fail or only one point is known.",
  ["inputs", "histories", "configurations"], "all points, values, bounds and orthonormal axes; two variables, one or two axes, up to three points per call",
  "tests check that a run ends; a wrong weight, box or sign only slows the search down",
  ["bayes_optim/extension.py"], [("axes", "extension.py:LinearTransform"), ("penalty", "extension.py:penalized_acquisition"), ("bookkeeping", "extension.py:PCABO.tell, _compute_bounds")],
  observe=["LinearTransform", "penalized_acquisition", "PCABO.ask", "PCABO.tell"])

P("C26", "Multi-objective BO keeps every evaluation and the exact efficient set",
  "For every sequence of evaluations of several objectives, each minimised or maximised: every successful point is recorded once with all its values, every evaluation of every objective is counted, failures are dropped; the "
  "efficient set reported consists of evaluated points, contains no dominated one and represents every efficient value vector; the model gets all points with every objective to be maximised; objectives are evaluated once per "
  "point and returned point by point; the point proposed maximises the expected hypervolume improvement over the current front, with variables fixed as asked.",
  ["inputs", "histories", "configurations"], "all objective values and directions, two and three objectives, up to three calls with one or two points",
  "tests check that a run ends; a wrong direction of one objective or a dominated point goes unnoticed",
  ["bayes_optim/mobo.py", "bayes_optim/base.py"], [("bookkeeping", "mobo.py:BaseMOBO.tell"), ("efficient set", "mobo.py:BaseMOBO.xopt, y"), ("criterion", "mobo.py:MOBO._create_acquisition")],
  observe=["MOBO.tell", "MOBO.xopt", "MOBO.ask", "MOBO.evaluate"])
