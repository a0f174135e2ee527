"""The catalogue: writes properties.jsonl and MANIFEST.json.

    /opt/venv/bin/python -m vp.catalog
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, over_text, why, files, mechanism,
         observe, note, technique):
    assert len(title) <= 80, title
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  over_text=over_text, why=why, files=files,
                  mechanism=mechanism, observe=observe, note=note,
                  technique=technique))


SPACE = "skopt/space/space.py"
TRANS = "skopt/space/transformers.py"
SAMP = "skopt/sampler/"
OPT = "skopt/optimizer/optimizer.py"
BASE = "skopt/optimizer/base.py"
UTILS = "skopt/utils.py"
ACQ = "skopt/acquisition.py"
GPR = "skopt/learning/gaussian_process/gpr.py"
KER = "skopt/learning/gaussian_process/kernels.py"

prop("C01", "Transforming points and back gives the same points",
     "For every search space (Real, Integer and Categorical dimensions of any "
     "prior, base, type, bounds and transform) inverse_transform(transform(X)) "
     "gives back the points X, with the values' declared types, and different "
     "points keep different images. This holds for single dimensions, whole "
     "spaces and the bare transformers, after any sequence of transformer "
     "switches. transform and inverse_transform do not change their inputs or "
     "the space.",
     ["inputs", "configurations", "histories"],
     "all dimensions, transforms, points and sequences of set_transformer",
     "the tests try a few dozen dimensions with one or two points each; the "
     "product of prior, base, dtype, transform and bounds is unbounded",
     [SPACE, TRANS], [("set_transformer / transform / inverse_transform",
                       SPACE), ("Transformer classes", TRANS)],
     ["Dimension.transform", "Space.transform", "Space.inverse_transform"],
     "round trip within rounding of the dtype (real) and exact (integer, "
     "categorical)", "property-based testing: round trip over generated spaces")

prop("C02", "The warped box maps into the space and contains every image",
     "The transform of every point of a space lies within "
     "Space.transformed_bounds, one (low, high) pair per transformed column. "
     "Every vector of that box is mapped by inverse_transform to a point that "
     "is in the space, with the declared types. The bounds themselves are "
     "images of the space's own bounds.",
     ["inputs", "configurations"],
     "all spaces, points of them and vectors of their warped boxes",
     "tests check the bounds of a handful of dimensions; edges depend on "
     "rounding of logarithms, integers and narrow float types",
     [SPACE, TRANS], [("transformed_bounds", SPACE),
                      ("inverse_transform clipping", SPACE)],
     ["Space.transformed_bounds", "Space.inverse_transform"],
     "tolerances only for the rounding of the transform itself",
     "property-based testing: containment both ways over generated boxes")

prop("C03", "Random samples are in the space and follow the declared prior",
     "Space.rvs(n) and Dimension.rvs(n) give exactly n values, each within the "
     "space and of the declared type, under every transform. They are "
     "determined by the random state given and do not touch the global one. "
     "Their distribution is the declared prior: uniform, log-uniform or the "
     "category probabilities.",
     ["inputs", "configurations"],
     "all spaces, transforms, sample sizes and seeds",
     "tests draw from a few spaces; whether the prior survives each transform "
     "is a distributional fact no fixed example shows",
     [SPACE], [("Dimension.rvs", SPACE), ("Space.rvs", SPACE)],
     ["Space.rvs"], "distribution by a DKW bound at p=1e-12 over 4000 draws",
     "property-based testing: membership, seeding, goodness of fit")

prop("C04", "A space is what its description says, or an error is raised",
     "A space built from tuples, lists, numpy scalars, dimension objects or a "
     "YAML file has the dimensions, types, bounds, priors and names the "
     "description states, and equals the one built from explicit dimension "
     "objects. Dimensions can be looked up by position or name. Invalid "
     "descriptions are rejected with an error.",
     ["inputs", "configurations"],
     "all descriptions in the supported notations",
     "tests list a few dozen descriptions",
     [SPACE, UTILS], [("check_dimension", SPACE), ("Space.from_yaml", SPACE),
                      ("Space.__getitem__", SPACE)],
     ["Space", "Space.from_yaml", "Space[...]"], "",
     "property-based testing: differential against explicit construction")

prop("C05", "Membership, distance and equality of spaces are what they say",
     "A point is in a space exactly if each value is within its dimension. "
     "Distance is zero from a point to itself, symmetric, the sum over "
     "dimensions of absolute differences (0 or 1 for categories), and refused "
     "for values outside. Two spaces are equal exactly if their dimensions "
     "are pairwise equal: of one type, with the same bounds, prior and "
     "transform, or the same categories and probabilities.",
     ["inputs", "configurations"],
     "all spaces and pairs of points inside and outside",
     "tests use one or two points per dimension type",
     [SPACE], [("__contains__, distance, __eq__", SPACE)],
     ["p in space", "space.distance", "space1 == space2"], "",
     "property-based testing against a reference membership and metric")

prop("C06", "Initial designs: n points of the space, seeded, without traces",
     "Every initial point generator (Lhs, Sobol, Halton, Hammersly, Grid), "
     "with every option, gives exactly n points of the space with the "
     "declared types. The same seed gives the same design, also from a reused "
     "generator, without touching the global random state. The dimensions and "
     "their transformers are afterwards as they were, also when an option is "
     "refused.",
     ["inputs", "configurations"],
     "all generators, options, spaces, sizes and seeds",
     "tests run each generator on two or three spaces with fixed sizes",
     [SAMP, UTILS], [("generate", SAMP),
                     ("cook_initial_point_generator", UTILS)],
     ["InitialPointGenerator.generate"], "",
     "property-based testing: invariants over generated designs")

prop("C07", "Each initial design has the structure it promises",
     "Lhs puts exactly one point into each of n equal strata of every "
     "dimension, and under a criterion is the best by it of the designs "
     "drawn; Halton and Hammersly are the radical inverses in the primes "
     "asked for; Sobol is the Sobol sequence (randomized: shifted modulo 1); "
     "Grid is a full lattice with the borders asked for. This holds for every "
     "number of points and dimensions supported.",
     ["inputs", "configurations"],
     "all sizes, dimensions, options and seeds",
     "tests compare a few first points of low-dimensional designs",
     [SAMP], [("Lhs, Halton, Hammersly, Sobol, Grid", SAMP)],
     ["InitialPointGenerator.generate"],
     "Sobol against an independent gray-code reference",
     "property-based testing against reference sequences")

prop("C08", "Every suggestion is a point of the space; asking is repeatable",
     "Optimizer.ask, ask(n_points) and run only suggest points of the search "
     "space with the declared types, whatever was told before and whichever "
     "surrogate, acquisition function and acquisition optimizer is used. The "
     "initial design is given out point by point according to how many points "
     "were told. Once a surrogate is fitted, asking again without telling "
     "gives the same suggestion and records nothing.",
     ["histories", "configurations", "inputs"],
     "all sequences of ask, ask(n), tell, batch tell, copy, update_next and "
     "run over all spaces and engines",
     "tests run fixed short loops in a handful of spaces",
     [OPT, UTILS, SPACE], [("Optimizer._ask", OPT),
                           ("clipping to transformed_bounds", OPT)],
     ["Optimizer.ask", "Optimizer.run"], "",
     "stateful property-based testing against a reference model")

prop("C09", "The history is what was told, and the surrogate learns from it",
     "After any sequence of tells (single, batch, with or without fit, of any "
     "points) the optimizer's points and values are exactly those told, in "
     "order; every result lists them, with the first least value as the "
     "minimum, and earlier results do not change afterwards. Each tell that "
     "reaches n_initial_points fits one model on exactly the transformed "
     "history (logarithms of times for 'ps' functions). No more models than "
     "model_queue_size are kept, the newest last.",
     ["histories", "configurations"],
     "all sequences of operations on an optimizer",
     "tests check lengths after one or two tells; what the surrogate is "
     "trained on is never looked at",
     [OPT, UTILS], [("Optimizer._tell", OPT), ("create_result", UTILS)],
     ["Optimizer.tell", "Optimizer.get_result", "the regressor's fit"],
     "a recording regressor observes the training data",
     "stateful property-based testing with a recording surrogate")


prop("C10", "An invalid observation or configuration is rejected without a trace",
     "tell refuses a point outside the space or of the wrong length, a value "
     "that is not a number, and numbers of points and values that differ, "
     "with an error; the optimizer is afterwards exactly as before and goes on "
     "as if the call had not been made. Optimizers and minimize functions "
     "refuse impossible settings (unknown names, an engine that cannot give "
     "the standard deviation or gradient needed, budgets that cannot hold the "
     "initial points) when they are made.",
     ["inputs", "histories", "configurations"],
     "all invalid observations at any moment of a history; listed "
     "impossible settings",
     "tests check that a few errors are raised, not that nothing changed",
     [OPT, BASE, UTILS], [("check_x_in_space", UTILS),
                          ("Optimizer._check_y_is_valid", OPT),
                          ("Optimizer.__init__", OPT)],
     ["Optimizer.tell", "Optimizer()", "base_minimize"],
     "twin optimizers: one gets the invalid call, both are continued",
     "property-based testing: fault injection against an undisturbed twin")

prop("C11", "The same seed gives the same run, whatever happens elsewhere",
     "A run of an optimizer or minimize function is determined by its "
     "arguments and random_state: repeated with an equal seed or an equal "
     "RandomState it evaluates the same points and gives the same result, also "
     "when other optimizers run in between or the global random states differ. "
     "It neither reads nor advances the global random state. Different seeds "
     "give different runs.",
     ["histories", "configurations", "schedules"],
     "all engines, generators, spaces, seeds and interleavings of two "
     "optimizers with unrelated random numbers drawn",
     "tests repeat a few runs back to back",
     [OPT, BASE, SAMP, "skopt/learning/"], [("rng use in Optimizer", OPT),
                                            ("check_random_state", BASE)],
     ["Optimizer.ask", "*_minimize"], "compared up to rounding (1e-7)",
     "property-based testing: metamorphic, run against run with noise between")

prop("C12", "Minimize functions keep budget and order and report what happened",
     "dummy_, gp_, forest_, gbrt_ and base_minimize call the objective exactly "
     "n_calls times (x0 with y0 does not count): first x0 in order, then points "
     "of the space. The result lists exactly the points and values evaluated or "
     "given, in order, with the first least value as x and fun. Callbacks are "
     "called once after each evaluation (once for all of x0) with the result so "
     "far, and one that returns True ends the run there.",
     ["inputs", "configurations", "histories"],
     "all combinations of budget, x0, y0, callbacks, engines and objectives",
     "tests vary these one at a time with one or two values",
     [BASE, OPT, "skopt/optimizer/dummy.py", "skopt/optimizer/gp.py",
      "skopt/optimizer/forest.py", "skopt/optimizer/gbrt.py"],
     [("base_minimize", BASE), ("dummy_minimize", "skopt/optimizer/dummy.py")],
     ["*_minimize", "OptimizeResult", "callbacks"], "",
     "property-based testing against a reference account of the run")

prop("C13", "Parallel suggestions and copies do not disturb the optimizer",
     "ask(n) gives n points of the space, the same when asked again, for every "
     "lie strategy; the surrogates it fits see the true history plus the lies "
     "the strategy prescribes (least, mean or greatest value told; times for "
     "'ps' functions likewise), and the optimizer's own history, models and "
     "next suggestion stay as they were. A copy has the same history and "
     "settings, stands at the same point of the initial design and suggests "
     "by the same rules; what is told to one afterwards does not reach the "
     "other.",
     ["histories", "configurations"],
     "all sequences of ask(n), copy and tell on originals and copies",
     "tests compare lengths and distinctness of one batch",
     [OPT], [("Optimizer.ask with n_points", OPT), ("Optimizer.copy", OPT)],
     ["Optimizer.ask(n)", "Optimizer.copy", "the regressor's fit"],
     "a recording regressor observes the lies",
     "stateful property-based testing with a recording surrogate")

prop("C14", "The suggestion is the best candidate under the acquisition function",
     "After the initial points the point suggested is the one of the candidates "
     "sampled from the space with the best value of the acquisition function "
     "asked for, under the surrogate fitted last, the least value told and the "
     "xi and kappa set; with gradients it is at least as good as the best "
     "candidate. 'gp_hedge' proposes by EI, LCB and PI and chooses among the "
     "three by the gains each has earned.",
     ["histories", "configurations"],
     "all histories, spaces, acquisition functions and their arguments",
     "tests only look at whether the search ends near the minimum",
     [OPT, ACQ], [("Optimizer._tell", OPT), ("_gaussian_acquisition", ACQ)],
     ["Optimizer.ask after tell"],
     "candidates observed through the recording surrogate",
     "stateful property-based testing against a reference acquisition")

prop("C15", "Acquisition functions are their mathematical definitions",
     "For every predicted mean and standard deviation, LCB is mean - kappa std "
     "(-std for kappa 'inf'), PI the normal probability and EI the expectation "
     "of an improvement of at least xi over the best value, 0 where std is 0; "
     "EIps and PIps divide by the expected (log-normal) time. They are finite, "
     "have one value per point, and rank points as they should: a lower mean or "
     "(for EI and LCB) a greater doubt is never worse. Unknown names are refused.",
     ["inputs"],
     "all means, standard deviations, best values, xi and kappa, times",
     "tests compare a few values and shapes",
     [ACQ], [("gaussian_ei, gaussian_pi, gaussian_lcb", ACQ),
             ("_gaussian_acquisition", ACQ)],
     ["skopt.acquisition"],
     "the expectation is also computed by numerical integration",
     "property-based testing against independent formulas")

prop("C16", "Gradients are the derivatives of what they are gradients of",
     "gradient_x of every kernel (and of sums, products and powers of kernels), "
     "the gradients of a Gaussian process' mean and standard deviation, and the "
     "gradients of LCB, EI and PI agree with numerical differentiation of the "
     "values they belong to. Asking for gradients does not change the values, "
     "nor does it change any argument.",
     ["inputs", "configurations"],
     "all kernel expressions, hyperparameters, training data and points",
     "tests check some kernels at a few random points",
     [KER, GPR, ACQ], [("gradient_x", KER), ("predict(return_mean_grad)", GPR),
                       ("gaussian_*(return_grad)", ACQ)],
     ["Kernel.gradient_x", "GaussianProcessRegressor.predict",
      "gaussian_ei / pi / lcb"],
     "not at points where the derivative does not exist",
     "property-based testing against Richardson-extrapolated differences")

prop("C17", "The Gaussian process gives the textbook posterior and likelihood",
     "For every kernel, noise setting, alpha, normalization and data set "
     "(including repeated points) mean, standard deviation and covariance are "
     "those of the exact posterior, the likelihood and its gradient those of "
     "the formula, and without fitting those of the prior. Fitting never ends "
     "at a less likely kernel than it started from, 'gaussian' noise is "
     "estimated and not predicted, and shifting, scaling or reordering the data "
     "changes the predictions accordingly. Fitting leaves data and kernel "
     "parameter as they are and forgets earlier fits.",
     ["inputs", "configurations", "histories"],
     "all kernels, hyperparameters, noise levels, data and query points",
     "tests compare a few predictions with scikit-learn",
     [GPR, KER], [("fit, predict", GPR)],
     ["GaussianProcessRegressor"],
     "tolerance grows with the condition number of the covariance matrix",
     "property-based testing against a direct linear-algebra reference")

prop("C18", "Kernels are their formulas, and so is their algebra",
     "Every kernel (RBF, Matern, RationalQuadratic, ExpSineSquared, DotProduct, "
     "Constant, White, Hamming and sums, products and powers of them) is its "
     "formula for all inputs: the matrix is symmetric, positive semidefinite, "
     "has diag as diagonal, and k(X) equals k(X, X) up to white noise. "
     "Hyperparameters are given and set by logarithms, fixed ones are left out, "
     "and the gradient by them is the derivative. The Hamming kernel counts "
     "differing categories weighted by length scales.",
     ["inputs", "configurations"],
     "all kernel expressions, hyperparameters and inputs",
     "tests check fixed kernels at a few points",
     [KER], [("Kernel classes", KER)], ["skopt.learning kernels"], "",
     "property-based testing against an independent kernel interpreter")

prop("C19", "Forests and quantile regressors: what mean and std stand for",
     "The mean of a random forest or extra-trees regressor is the mean over its "
     "trees of the means of the training values in the leaf, and std is the "
     "square root of the total variance: variance between trees plus mean "
     "variance within leaves, each at least min_variance. The quantile "
     "regressor predicts each quantile asked for (median by default) with its "
     "own copy of the base estimator, and std is half the distance of the 16 "
     "and 84 % quantiles, never negative. Fits are seeded and change no "
     "argument or estimator given.",
     ["inputs", "configurations"],
     "all training data (repeated points, constant values), tree settings and "
     "seeds",
     "tests compare one std with numpy",
     ["skopt/learning/forest.py", "skopt/learning/gbrt.py"],
     [("_return_std", "skopt/learning/forest.py"),
      ("GradientBoostingQuantileRegressor", "skopt/learning/gbrt.py")],
     ["fit, predict(return_std)"],
     "leaf statistics recomputed from the training data",
     "property-based testing against leaf statistics of the training data")

prop("C20", "Stored results and optimizers are equal; checkpoints survive crashes",
     "A result dumped (with any compression, with or without objective) and "
     "loaded has the same points, values, space, models and specs, and the "
     "original is not changed; without the objective this works for any "
     "objective; an optimizer pickled at any moment of its "
     "history goes on exactly as the one that was not. With CheckpointSaver the "
     "file always holds a complete result that can be loaded and continued: "
     "after every round that of the round, and if storing fails or is "
     "interrupted midway, that of the round before.",
     ["histories", "crash_points", "fault_sequences", "configurations"],
     "all moments of a history, storage options, and interruptions while "
     "storing",
     "tests store one result each way and never interrupt it",
     [UTILS, "skopt/callbacks.py", OPT], [("dump, load", UTILS),
                                         ("CheckpointSaver",
                                          "skopt/callbacks.py")],
     ["skopt.dump", "skopt.load", "CheckpointSaver", "pickle"], "",
     "property-based testing: round trip, twins and injected faults")

prop("C21", "Stopping callbacks decide by their definitions, and runs obey",
     "DeltaXStopper, DeltaYStopper, ThresholdStopper, HollowIterationsStopper, "
     "DeadlineStopper and EarlyStopper subclasses decide to stop exactly when "
     "their documented condition holds for the history so far, and never before "
     "enough observations exist. A run with any list of callbacks calls all of "
     "them in order after each round and ends with the first round in which one "
     "says so. TimerCallback records one duration per round.",
     ["histories", "inputs", "schedules"],
     "all histories, thresholds, clocks and lists of callbacks",
     "tests check one or two decisions of each stopper",
     ["skopt/callbacks.py", UTILS, BASE],
     [("EarlyStopper classes", "skopt/callbacks.py"),
      ("eval_callbacks", UTILS)],
     ["callbacks", "*_minimize(callback=...)"],
     "a clock of the check's own stands in for time.time",
     "property-based testing against reference decisions; simulated clock")

prop("C22", "Points by name: named arguments, dictionaries, default engines",
     "An objective decorated with use_named_args receives for every point the "
     "value of each dimension under that dimension's name, whatever the order "
     "and types, and nothing else. point_asdict, point_aslist and "
     "dimensions_aslist are inverse to each other and use one order. "
     "cook_estimator makes, for each name, space and option, the documented "
     "engine, and base estimators may be given by name in any case.",
     ["inputs", "configurations"],
     "all spaces, names, points and engine names",
     "tests use one space each",
     [UTILS], [("use_named_args", UTILS), ("point_asdict, point_aslist", UTILS),
               ("cook_estimator", UTILS)],
     ["skopt.utils"], "",
     "property-based testing: round trip and reference dictionaries")

prop("C23", "The expected minimum is a point of the space with its prediction",
     "expected_minimum and expected_minimum_random_sampling give a point of the "
     "space, with values of the declared types, together with the last model's "
     "prediction there. The first is not above the prediction at the best point "
     "observed nor at a random start, the second (also used for spaces with "
     "categories) is the least of the points sampled. Both are seeded and leave "
     "the result unchanged.",
     ["inputs", "configurations", "histories"],
     "all results of searches over all spaces without or with categories",
     "tests run it on one function",
     [UTILS], [("expected_minimum", UTILS),
               ("expected_minimum_random_sampling", UTILS)],
     ["expected_minimum", "expected_minimum_random_sampling"], "",
     "property-based testing against the model's own predictions")

prop("C24", "BayesSearchCV tries valid settings, scores them and keeps the best",
     "BayesSearchCV tries n_iter settings (per subspace as many as asked), each "
     "within its search space with the declared types and in batches of "
     "n_points, and cv_results_ lists exactly the settings, splits, scores, "
     "ranks and times of the evaluations made, in order. best_params_, "
     "best_score_ and best_index_ are those of the best mean score, the refitted "
     "estimator has those settings and sees all data and fit parameters. "
     "Callbacks, total_iterations, optimizer_results_, seeds and error handling "
     "follow the documentation; invalid search spaces are refused.",
     ["inputs", "configurations", "histories"],
     "all forms of search spaces, batch sizes, cross-validators, scorers, "
     "options and failing fits",
     "tests run a few real estimators and check the score is good",
     ["skopt/searchcv.py"], [("BayesSearchCV.fit, _run_search, _step",
                              "skopt/searchcv.py")],
     ["BayesSearchCV", "cv_results_", "the estimator's fit"],
     "an estimator that records its calls stands in for real ones; a second "
     "part compares with scikit-learn's cross_val_score",
     "property-based testing with a recording estimator, differential")

prop("C25", "Plots draw the data they are documented to show",
     "plot_convergence and plot_regret draw the running minimum and regret of "
     "every result (mean over several), plot_gaussian_process the observations, "
     "predictions and acquisition values of the model and data it names, "
     "plot_evaluations and plot_objective histograms of all samples, and each "
     "sample and dimension in the panel, scale, tick labels and order asked "
     "for. Partial dependence is the average prediction over the samples with "
     "the dimension in question replaced by each point of its grid. Plotting "
     "changes neither the result nor the samples.",
     ["inputs", "configurations", "histories"],
     "all results, spaces, subsets of dimensions and options",
     "tests check that the functions do not raise",
     ["skopt/plots.py", "skopt/space/space.py"],
     [("plot_*", "skopt/plots.py"), ("partial_dependence*",
                                     "skopt/plots.py")],
     ["matplotlib artists of the axes returned", "partial_dependence_1D/2D"],
     "artists are read back from the figure; no pixels are compared",
     "property-based testing: drawn data against the result")

prop("C26", "Benchmark functions are their formulas, with the documented minima",
     "branin, hart6, bench1 to bench5 give, for every input, the value of their "
     "published formula as a number; the documented minimizers have the "
     "documented minima and no point of the domain is below. They accept lists, "
     "tuples and arrays and do not change them.",
     ["inputs"], "all inputs and constants", "tests check the minima only",
     ["skopt/benchmarks.py"], [("benchmark functions",
                                "skopt/benchmarks.py")],
     ["skopt.benchmarks"], "",
     "property-based testing against independent formulas")

prop("C27", "What does not describe the problem does not change the search",
     "A search goes to the same points and ends with the same result when the "
     "same problem is written another way: dimensions as shorthand, objects, "
     "named or a Space, an integer or equal RandomState as seed, points as "
     "lists, tuples or numpy numbers, defaults written out, engines by name in "
     "any case, another model_queue_size, n_jobs, verbosity or observers "
     "asking, copying and reading results in between. The minimize functions "
     "are the loop of ask and tell with the same settings.",
     ["configurations", "histories", "schedules"],
     "all searches and ways of writing them",
     "tests run one way of writing each",
     [OPT, BASE, "skopt/optimizer/gp.py", "skopt/optimizer/forest.py",
      "skopt/optimizer/gbrt.py", SPACE, UTILS],
     [("base_minimize", BASE), ("Optimizer.__init__", OPT)],
     ["Optimizer.ask", "*_minimize"], "compared up to rounding (1e-7)",
     "property-based testing: metamorphic, two ways of the same search")

prop("C28", "Telling many points at once, grouped in any way, is telling each",
     "The optimizer's history, result, models' training data and next "
     "suggestions depend on the points and values told and their order, not on "
     "whether they came one by one (without fits between), in groups, or all at "
     "once. x0 with y0 given to a minimize function leads to the same search "
     "as x0 evaluated.",
     ["histories"], "all histories and ways of grouping them",
     "tests tell one batch and check its length",
     [OPT, BASE], [("Optimizer._tell", OPT), ("base_minimize", BASE)],
     ["Optimizer.tell", "base_minimize(x0, y0)"], "",
     "property-based testing: metamorphic over groupings of a history")

prop("C29", "What belongs to the caller stays the caller's",
     "No call changes its arguments: dimensions (and their transformers and "
     "names), spaces, points, values, lists of callbacks, option dictionaries, "
     "estimators, kernels, generators, data. Changing the points, results or "
     "lists that were handed in or out afterwards does not change what an "
     "optimizer or result holds, nor where the search goes.",
     ["histories", "configurations", "inputs"],
     "all calls of the optimizer, minimize functions, BayesSearchCV and tools",
     "tests hardly ever look at arguments after a call",
     [OPT, BASE, UTILS, "skopt/searchcv.py", SPACE],
     [("Optimizer.__init__, tell, ask", OPT), ("normalize_dimensions", UTILS)],
     ["every public function's arguments and return values"],
     "the random state given is consumed, and an objective that changes its "
     "argument is out of scope",
     "property-based testing: pictures of arguments before and after, twins")


def manifest_props():
    return [p for p in P if os.path.exists(
        os.path.join(HERE, "vp", "props", p["pid"].lower() + ".py"))]


def main():
    ps = manifest_props()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in ps:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["over_text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w}
                                          for n, w in p["mechanism"]],
                            "observe_at": p["observe"],
                            "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "bin/setup", "checks": [],
           "not_applicable": [],
           "notes": "Every check imports skopt from /repo's working tree "
           "(pure Python, nothing to build).  No hooks are needed in /repo."}
    for p in ps:
        man["checks"].append({
            "property": p["pid"],
            "quick_cmd": "bin/check %s" % p["pid"],
            "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % p["pid"],
            "evidence_file": "evidence/%s.json" % p["pid"],
            "technique": p["technique"], "level": "exploration",
            "level_note": ("generated-input search (hypothesis) with "
                           "shrinking to a replay file; no violation among "
                           "the generated cases, not a proof"
                           + ("; " + p["note"] if p["note"] else ""))})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(ps), "properties")


if __name__ == "__main__":
    main()
