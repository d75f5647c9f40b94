"""known_findings.json from this table: (property, subject prefix of the fix commit, what failed) and known findings"""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C01", "keep samples of rescaled", "a Real variable on a log, log10, bilog or logit scale could be sampled one ulp outside its bounds (generator outcome 0 or close to 1)"),
 ("C31", "Node.remove and Node.deepcopy", "Node.remove kept/dropped the wrong children and deepcopy lost nodes because of a late-bound lambda"),
 ("C31", "do not duplicate variable conditions", "building a space from a structure duplicated conditions and modified the structure given"),
 ("C05", "categorical_mask includes", "reading categorical_mask overwrote subset_mask and omitted subset variables"),
 ("C07", "SearchSpace.from_dict honours", "`default` and the step of replicated/ordinal entries were ignored by from_dict"),
 ("C07", "SearchSpace.from_dict reports", "invalid entries were silently dropped by from_dict"),
 ("C05", "SearchSpace.update works", "update() failed or lost variables when no or several names are shared"),
 ("C05", "SearchSpace.__imul__", "space *= 1 duplicated the variables"),
 ("C06", "variables that compare equal", "equal variables had different hashes / unequal ones compared equal"),
 ("C05", "renaming duplicated", "renaming duplicated variables produced a name that already exists"),
 ("C05", "adding search spaces", "A + B renamed the variables of B"),
 ("C05", "update the type of the search space", "replacing a variable left the space with the wrong type (e.g. RealSpace holding an Integer)"),
 ("C03", "points repaired by handle_box", "a repaired point could exceed the bound by rounding"),
 ("C07", "SearchSpace.to_dict/to_json", "to_dict/to_json wrote what from_dict/from_json cannot read"),
 ("C08", "a Solution can hold one point", "a Solution of one point whose first coordinate is a tuple was misread"),
 ("C08", "negative and numpy integer indices", "S[-1] or S[np.int64(i)] lost or mixed up fitness, n_eval and index"),
 ("C08", "Solution.from_dict looks", "from_dict put the values in the order of the dict instead of by name"),
 ("C08", "concatenating Solutions aligns", "A + B mixed up the columns when the variables are in another order"),
 ("C08", "multi-objective Solutions of one", "concatenating or repeating one-point multi-objective Solutions failed"),
 ("C11", "a maximised objective stops", "maximisation stopped at once because the target test was reversed"),
 ("C10", "one evaluation counts once", "n_eval was incremented twice per evaluation"),
 ("C10", "points told as dictionaries", "dicts with another key order than the space were recorded in the wrong columns; warm data failed with eval_type=dict"),
 ("C10", "warm data can be a Solution", "warm data given as a Solution failed"),
 ("C10", "multi-objective points with a failed", "post_eval_check failed for several objectives"),
 ("C30", "optimizers do not share or modify", "optimizers shared the default acquisition_par dict and modified the caller's"),
 ("C13", "the acquisition parameters also apply", "acquisition_par was ignored when one point is proposed"),
 ("C09", "one of several equal candidates", "all of several equal candidates were removed, so that ask returned too few points"),
 ("C09", "points drawn to complete a batch", "points drawn to fill up a batch could repeat the ones in it"),
 ("C28", "SelfAdaptiveBO ranks", "SelfAdaptiveBO failed because it sorted points instead of acquisition values"),
 ("C23", "an optimizer stays usable", "a failed save left the optimizer with serialised data and no logger"),
 ("C24", "ConditionalBO keeps variables", "values 0 and False were dropped from the proposed points"),
 ("C22", "partial_argument fills in", "partial_argument failed for more than one point or array inputs"),
 ("C13", "the probability of improvement", "PI could not be constructed because epsilon 0 was rejected"),
 ("C13", "UCB prefers good", "UCB preferred bad predicted values"),
 ("C21", "(1+1)-CMA-ES restarts at most", "(1+1)-CMA-ES restarted without limit"),
 ("C21", "(1+1)-CMA-ES with constraints", "verbose mode failed with constraints"),
 ("C04", "MIES respects the step", "MIES proposed integers off the step grid"),
 ("C03", "rounding or rescaling points", "SearchSpace.round and to_linear_scale modified the caller's array"),
 ("C04", "candidate points have the declared", "the results of L-BFGS-B and the initial point of (1+1)-CMA-ES were not rounded to the declared precision"),
 ("C04", "constrained sampling proposes only", "SCMC proposals ignored precision and step, turned mixed levels into strings and failed for subsets"),
 ("C04", "the Cholesky factor of (1+1)-CMA-ES", "a zero-length step made the factor NaN so that later points were NaN; reset left the inverse stale"),
 ("C20", "constraints work in spaces whose first variable", "the penalty of the best point failed if the first variable is a subset"),
 ("C19", "argmax_restart takes constraints returning", "argmax_restart failed for constraints returning lists/numbers and without a logger"),
 ("C23", "saving restores the data whatever", "the data stayed serialised if dumping the logger failed"),
 ("C31", "unconditional subspaces contain every", "active variables were missing from unconditional subspaces when a sibling has conditions of its own"),
 ("C31", "conditions may compare to negative", "the selector value of a negative-number condition was None"),
 ("C24", "ConditionalBO counts failed", "failed evaluations were not counted, so the budget is exceeded"),
 ("C10", "a first batch of failed", "tell raised a ValueError if no evaluation has succeeded yet"),
 ("C15", "generalized_exponential accepts one", "isotropic generalised exponential kernel raised IndexError"),
 ("C15", "the gradient of a Matern GP", "the gradient of a Matern GP was zero at training points"),
 ("C15", "L-BFGS-B gets the gradient", "the likelihood gradient was not that of the function minimised (log10 parameters, known noise)"),
 ("C15", "prior_cov accepts two", "prior_cov failed for two sets of points"),
 ("C15", "GP predictions in batches", "predict(batch_size=...) raised TypeError"),
 ("C27", "fmin returns the trial points", "the initial design was missing from the trial points, the others were shifted"),
 ("C27", "fmin accepts integers", "integer scalar bounds raised UnboundLocalError"),
 ("C27", "zero is a valid random seed", "the seed 0 was ignored"),
 ("C27", "fmin passes vectors", "the documented example raised TypeError as the objective got a list"),
 ("C16", "non_dominated_set_2d returns", "points with equal coordinates gave dominated points or dropped non-dominated ones"),
 ("C25", "PCA-BO can start from a single", "PCA-BO failed (NaN bounds) if only one evaluation has succeeded"),
 ("C25", "PCA-BO goes on if no", "PCA-BO raised ZeroDivisionError if every evaluation of the first batch fails"),
 ("C26", "multi-objective BO does not select", "MOBO with a model that has gradients and the default inner optimizer raised ValueError in ask"),
 ("C31", "adding a space in place", "a += b lost the conditions of b"),
 ("C31", "subtracting a space in place", "after a -= b get_unconditional_subspace raised IndexError"),
 ("C31", "a selector without conditional", "get_unconditional_subspace raised TypeError after the last conditional variable was removed"),
 ("C21", "MIES accepts user-given", "MIES with sigma0, eta0 or P0 raised AssertionError"),
 ("C21", "MIES can be started from", "MIES with x0 raised ValueError"),
 ("C21", "MIES can pass dictionaries", "MIES with eval_type='dict' raised TypeError"),
 ("C26", "multi-objective BO goes on", "MOBO raised ValueError if every evaluation of the first batch fails"),
 ("C05", "assigning one variable to several", "space[[0, 1]] = var stored one object twice, so that two variables had the same name"),
 ("C05", "variables can be assigned with the indices", "space[numpy integer] = var changed nothing, and space[mask] = var changed the wrong positions"),
 ("C15", "noise is not part of what", "with a nugget or estimated noise the prediction was too far from the trend and its variance too small (observations 1.5, 2.0 with noise variance 0.5)"),
 ("C15", "a Gaussian process can be fitted with the restricted", "fitting with likelihood='restricted' raised TypeError"),
 ("C15", "the restricted likelihood and its gradient", "the restricted likelihood had a wrong sign with a known trend, and its gradient was not its derivative"),
    ("C34", "the gradient of the RBF kernel", "GaussianProcessSklearn.gradient with an RBF kernel lacked the factor |x-x'|: query at a training point returned a zero-divided direction, elsewhere a gradient too large by 1/d"),
    ("C34", "the variance gradient of several", "GaussianProcessSklearn.gradient raised for two query points in one variable"),
    ("C34", "MSLL overwrites", "MSLL(..., variances=[0, 0.5]) changed the caller's array to [1e-7, 0.5]"),
    ("C35", "Daemon.stop fails", "Daemon.stop raised NameError after the first signal: the process file stayed and the daemon was signalled once at most"),
    ("C35", "an empty process file", "Daemon.stop, start and is_running raised ValueError when the process file was empty"),
    ("C29", "a random forest can be created", "RandomForest() without levels raised AssertionError although the argument is optional"),
]
KNOWN = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for p, s, w in FIXED:
    h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + s)]
    assert len(h) == 1, (s, h)
    out.append({"property": p, "status": "fixed", "commit": h[0], "what": f"fixed: property={p} {h[0]} {w}"})
json.dump(out + KNOWN, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
open(os.path.join(root, "known_findings.json"), "a").write("\n")
n = sum(l.split(" ", 1)[1].startswith("fix:") for l in log)
print(len(out), "fixed entries,", n, "fix commits")
