#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json
import os

B, FU, UT, PL, PP, NO, EX = ("src/mud/base.py", "src/mud/funs.py", "src/mud/util.py", "src/mud/plot.py",
                             "src/mud/preprocessing.py", "src/mud/norm.py", "src/mud/examples")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=m, where=w) for a, m, w in state],
                               observe_at=observe, hook_needed=None)))


prop("C01", "MUD point and expected ratio are what the updated density says",
     """For any samples, the MUD point (and the estimate) is one of the parameter samples at which weight x initial
     density x observed density / predicted density is largest, and the expected ratio is the weighted mean of observed /
     predicted, where a density of a multi-component sample is the product over its components and a sample of zero initial or observed density contributes zero whatever the predicted. Settings left out take
     their documented defaults: uniform initial over the domain (bounding box of the samples padded by the requested
     ratio when none is given), Gaussian-kernel estimate with the requested bandwidth for the predicted, standard normal
     for the observed. One-dimensional inputs are repeated samples of one parameter or observable, and a domain of the wrong dimension
     is refused.""",
     ["inputs", "configurations"], "every sample set, dimension, domain, padding, choice of distributions and bandwidth",
     "the tests check a handful of fixed 1-D and 2-D identity or polynomial problems with approximate answers",
     [B], [("updated density", "DensityProblem.fit"), ("mud point", "DensityProblem.mud_point"),
           ("E(r)", "DensityProblem.expected_ratio"), ("defaults", "DensityProblem.set_initial/set_predicted/set_observed/__init__")],
     ["mud_point()", "estimate()", "expected_ratio()", "domain", "n_params/n_features/n_samples"])

prop("C02", "A density problem never answers from settings no longer in force",
     """After any sequence of setting weights, initial, predicted and observed densities, fitting, asking and plotting,
     every answer (MUD point, expected ratio, plotted curves) is the one a fresh problem given exactly the settings now in
     force would give. Setting weights or the initial density withdraws the predicted density, which is then estimated
     again with the current weights; asking or plotting never changes a later answer.""",
     ["histories"], "every sequence of public calls on one problem object",
     "the tests call the methods in one or two usual orders and never change a setting after an answer",
     [B], [("invalidation", "DensityProblem.set_weights/set_initial/set_predicted/set_observed"), ("lazy fit", "DensityProblem.fit")],
     ["mud_point()", "expected_ratio()", "plot_param_space()", "plot_obs_space()"],
     [("cached densities", "arrays kept between calls", "DensityProblem"), ("updated density", "answer of the last fit", "DensityProblem")])

prop("C03", "Sample weights: stacking, normalising, validation and invariance",
     """Stacked weight vectors act as their element-wise product, normalising divides by the 2-norm, and weights are
     accepted in list, 1-D or 2-D form at construction, later, or together with the predicted density, with the same effect. A weight
     vector whose length is not the number of samples is refused and leaves the problem as it was. Answers do not change when all
     weights are scaled, when no weights are replaced by ones, or when samples are reordered with their weights, and a
     sample of weight zero is never the MUD point and counts as absent.""",
     ["inputs", "histories"], "every weight stack, sample set and order",
     "the tests use two weight vectors on one problem",
     [B], [("weights", "DensityProblem.set_weights"), ("weighted fit", "DensityProblem.fit/expected_ratio/set_predicted")],
     ["mud_point()", "expected_ratio()", "exceptions of set_weights()"])

prop("C04", "Solving, asking and plotting leave the caller's data and the problem alone",
     """No constructor, solver, wrapper, preprocessing, plotting or utility call changes the arrays, lists, dictionaries or option
     dictionaries handed to it (or their later defaults), and a density, Bayesian or linear
     Gaussian problem does not change when the caller later changes the arrays it was given. Solving (an iterative problem, which goes
     on from its last point, aside), plotting or asking for an estimate, an error or a functional twice gives the same answer and
     leaves the problem's inputs as they were.""",
     ["inputs", "histories"], "every public call with mutable arguments, repeated in any order",
     "the tests never look at their inputs after a call",
     [B, FU, UT, PL, PP], [("copies", "__init__ of every class, fit_domain, add_noise, set_shape"), ("option merging", "plot_* defaults")],
     ["arguments after the call", "second answers"])

prop("C05", "The MAP point maximises prior times likelihood, in either mode",
     """For any samples, prior and likelihood, the MAP point (and the estimate) is a sample at which prior density x
     likelihood is largest, the likelihood of a row being the product over its observables; computing with logarithms gives the same
     point. The prior defaults to uniform over the domain, or over the padded bounding box of the samples. A posterior that vanishes at every sample is
     refused in both modes, and after any sequence of setting prior and likelihood the answer and the plotted posterior
     are those of the settings now in force.""",
     ["inputs", "histories"], "every sample set, prior, likelihood, mode and sequence of calls",
     "the tests fit one or two 1-D problems",
     [B], [("posterior", "BayesProblem.fit"), ("invalidation", "BayesProblem.set_likelihood/set_prior")],
     ["map_point()", "estimate()", "plots", "ValueError"])

prop("C06", "The linear MUD point solves the data equations, closest to the prior mean",
     """For any affine map, prior mean, positive-definite prior covariance and data, the MUD solution reproduces the data
     exactly whenever the map has full row rank, and among all parameters that do so it is the one closest to the prior mean in the norm
     of the inverse prior covariance; for deficient rank it is the minimum-norm (pseudo-inverse) update. It does not depend on the data covariance or on the
     regularisation scale, restricting the output dimension solves the problem made of those first rows, and every entry
     point (class, function, alternative formula on full rank) returns the same point. The problem keeps the last answer of each method.""",
     ["inputs"], "every map up to the bounded size, rank, covariance, mean and data, with any argument left out or given as list or flat array",
     "the tests use a few random systems",
     [B, FU], [("update", "LinearGaussianProblem.solve"), ("entry points", "mud_sol, mud_sol_with_cov, lin_prob")],
     ["solve(method='mud')", "solve(method='mud_alt')", "mud_sol()", "mud_sol_with_cov()"])

prop("C07", "MAP, least-squares and updated covariance follow their closed forms",
     """For any affine Gaussian problem the MAP point is the minimiser of data misfit plus prior misfit with posterior covariance the
     inverse of the summed precisions (the prior scaled by the given factor), the least-squares point is the
     minimum-norm least-squares solution, and the updated covariance pushes forward to the data covariance on the informed directions and
     keeps the prior elsewhere. Class methods and the corresponding functions agree, solving for all methods returns the same three points
     as solving for each, the problem keeps the last answer of each method, and inconsistent dimensions are refused.""",
     ["inputs"], "every affine Gaussian problem up to the bounded size, with defaults left out",
     "the tests compare MUD with MAP in a few random systems and never check covariances",
     [B, FU], [("MAP", "LinearGaussianProblem.solve"), ("covariance", "updated_cov")],
     ["solve(method='map'|'ls'|'all')", "updated_cov()", "map_sol()", "map_sol_with_cov()"])

prop("C08", "Functionals have the stated terms and are minimised by the solutions",
     """For any affine Gaussian problem and any parameters, the data, prior and predicted terms are the squared norms of the data mismatch,
     of the distance from the prior mean, and of that distance mapped to the output space, each in the inverse of its
     covariance (the last two times the regularisation scale); the Bayesian functional is the sum of the first two and the data-consistent one subtracts the third. The MAP point
     minimises the Bayesian functional and the MUD point the data-consistent one (unit regularisation scale), each selectable term equals its part of the full
     answer, and the stand-alone norm functions agree, for one or many parameters and scalar or matrix covariances.""",
     ["inputs"], "every affine Gaussian problem up to the bounded size and every set of evaluation points",
     "the tests do not evaluate the functionals against the solutions",
     [B, NO], [("terms", "LinearGaussianProblem.compute_functionals"), ("norms", "norm.py")],
     ["compute_functionals()", "full_functional()", "norm_input()", "norm_data()", "norm_predicted()", "inner_product()"])

prop("C09", "Weighted mean error maps aggregate residuals with 1/sqrt(N) scaling",
     """For predictions and N data with noise level sd, the weighted mean error is the sum over data of (prediction - data)/(sd sqrt N)
     for every sample, sd defaulting to the standard deviation of the data, and a length mismatch is refused. For linear maps
     the transformed operator and offset reproduce exactly that quantity at every parameter, for repeated observations of one row as for N
     distinct rows with their own noise levels, stacked in order for several quantities of interest; a noise level that is not positive, or operator rows or
     noise levels not matching the data of a quantity in number, or a quantity
     without data or noise level, are refused.""",
     ["inputs"], "every prediction matrix, data vector (any accepted shape), noise level and operator list",
     "the tests check two shapes with zero residuals",
     [FU, UT, B], [("map", "wme"), ("linear map", "transform_linear_map/transform_linear_setup/LinearWMEProblem")],
     ["wme()", "transform_linear_map()", "transform_linear_setup()", "LinearWMEProblem.A/b/solve()"])

prop("C10", "Iterative solves chain one-row problems in the given order",
     """An iterative linear solve visits the rows in the given order once per epoch, each step being the exact solution (by the chosen
     method) of the one-row problem started from the previous point; epochs and further solve calls continue from where the last one stopped, starting
     at the initial mean. Every MUD step satisfies its own row exactly and never moves away (in the inverse-covariance norm)
     from a parameter satisfying all rows. Recorded chains, errors and every entry point tell the same story, in order.""",
     ["inputs", "histories"], "every system, order of rows (with repetition), number of epochs and sequence of solve calls",
     "the tests run one consistent system for a few epochs",
     [B, FU], [("chain", "IterativeLinearProblem.solve"), ("entry points", "iter_lin_solve, iterate, performEpoch")],
     ["solve()", "solution_chains", "epochs", "get_errors()", "iter_lin_solve()", "iterate()", "performEpoch()"])

prop("C11", "A spatio-temporal problem accepts only mutually consistent parts, in any order",
     """In any order of assignment, parameter samples must match the domain's dimension, a new domain must match and contain the samples present, reference parameters must match
     and lie inside the domain then in force (bounds included), simulated data must have sensors x times columns (3-D or 1-D data being flattened, absent sensors
     or times inferred), measurements and true values must have one value per sensor and time, and only known distribution tags are accepted. An inconsistent
     assignment is refused and leaves everything as it was, and every accepted one is readable back unchanged; counts are those of
     the parts, or an error before they are set.""",
     ["histories", "inputs"], "every sequence of assignments, valid and invalid, with every accepted shape",
     "the tests assign in one order and try a few invalid shapes",
     [B], [("validation", "property setters of SpatioTemporalProblem")],
     ["attributes of SpatioTemporalProblem", "exceptions"],
     [("parts", "lam, domain, lam_ref, data, sensors, times, measurements, true_vals, sample_dist", "SpatioTemporalProblem")])

prop("C12", "Sub-sampling selects the same samples, sensors and times everywhere",
     """For any masks, sub-sampling returns the selected parameters, times and sensors, and, for data and measurements, exactly the entries at the selected samples, sensors
     and times, sensor-major as stored. The closest sample to the measurements (or true values) is a selected sample whose
     selected data have the least Euclidean distance to them.""",
     ["inputs"], "every index or boolean mask on every axis, in combination, with or without measurements",
     "the tests use one mask at a time",
     [B], [("selection", "SpatioTemporalProblem.sample_data"), ("nearest", "get_closest_to_measurements/get_closest_to_true_vals")],
     ["sample_data()", "get_closest_to_measurements()", "get_closest_to_true_vals()"])

prop("C13", "Data-constructed maps are the stated combinations of scaled residuals",
     """A density problem built from spatio-temporal data has, for each selected sample, as observables the residuals (measurement - data)/sd, optionally
     scaled by unit-normalised data weights (one per selected datum, otherwise refused), combined as their sum over sqrt(number of selected data) for the weighted mean error map,
     or projected on the leading principal directions (PCA) or right singular vectors (SVD) of the standardised residuals in the requested number. Samples, domain
     and sample weights are passed on, and an unknown map is refused.""",
     ["inputs", "configurations"], "every data set, mask, weighting, method and number of components",
     "the tests only check that a density problem comes out",
     [B, PP], [("map", "SpatioTemporalProblem.mud_problem")],
     ["mud_problem().y", "mud_problem().X", "mud_problem().domain", "pca/svd attributes"])

prop("C14", "Loading fills every field from the data set and validation names what is missing",
     """Loading from a dictionary or pickled file assigns each field from the entry of its name or of the name given for it, or the value given directly, leaving absent ones
     unset, applying the same checks as direct assignment, and returns the data set; a missing file is an error. Measurements drawn from a
     reference are the true values plus noise of the given level, reproducible under a seed, with both remembered, and refused when either is missing. Validation
     succeeds exactly when the requested parts are set.""",
     ["inputs", "configurations"], "every subset of fields, renaming and value, from memory or disk",
     "the tests load two complete files",
     [B], [("load", "SpatioTemporalProblem.load"), ("noise", "measurements_from_reference"), ("validate", "SpatioTemporalProblem.validate")],
     ["attributes after load()", "validate()", "measurements"])

prop("C15", "The one-call wrappers are their class-level equivalents",
     """The one-call MUD, MAP and data-driven wrappers give exactly the problem their class-level spelling gives: the first requested number of observables, noise
     of the given level drawn once per datum, the weighted mean error map over all or over each given group of them (in order), the given domain, weights
     and initial distribution, and likelihood centred at the noisy data. Requested numbers below one or above those available are refused.""",
     ["inputs", "configurations"], "every shape, number of observations, split, weights, noise level and mode",
     "the tests check that wrappers run and roughly estimate one parameter",
     [FU], [("wrappers", "mud_problem, map_problem, data_prob")],
     ["mud_problem()", "map_problem()", "data_prob()"])

prop("C16", "Domains and meshes cover exactly the stated ranges",
     """Fitting a domain to samples or bounds gives each column's minimum and maximum moved outwards by the padding ratio times its range, and fails without
     either. Unit and normal meshes are the row-major products of evenly spaced points including both ends, and an n-dimensional plotting grid is the product of evenly spaced
     points of every axis in axis order, without each axis' last point, listed consistently as mesh and as coordinates.""",
     ["inputs"], "every sample array, bounds, padding, size, window and dimension",
     "the tests check doc examples only",
     [UT, PL], [("domain", "fit_domain"), ("meshes", "make_2d_unit_mesh, make_2d_normal_mesh, build_nd_mesh_grid"), ("shape", "set_shape")],
     ["return values"])

prop("C17", "Plots draw the normalised quantities they are named for",
     """A plotted density is the requested component's marginal of the joint density over the domain's grid, scaled to unit area (Bayesian observable plots: in proportion), whatever the dimension and source; vertical
     lines stand at the MUD, MAP or true value of that component. Contour lines of a linear map pass through the reference point along which that row's output is constant, solution and chain plots
     join the actual points, scatter, contour and time-series plots show the selected columns, rows and sensors, and everything is drawn on the axes given.
     Drawing options given for a curve, point or label (colour, line style, width, size, levels, filling, label) are the ones it is drawn with.
     Saving a figure writes the current one where asked, and closes it, and no other, unless told not to.""",
     ["inputs", "configurations"], "every dimension, component, range, resolution and option subset",
     "the tests only check that plotting does not raise",
     [PL, B], [("marginals", "plot_dist/build_nd_mesh_grid"), ("lines", "plot_vert_line, plot_contours, plotChain"), ("methods", "plot_* methods")],
     ["artists on the axes"])

prop("C18", "PCA and SVD preprocessing decompose the standardised data",
     """For any two-dimensional data, both decompositions act on the data standardised column by column (a constant column becoming zero): the singular value decomposition multiplies back to it
     with orthonormal factors and non-negative decreasing singular values, and the principal components are orthonormal directions with
     the transformed data being the projections of it, uncorrelated, with decreasing variances, in the requested number. Further options reach the underlying decomposition. Data that is not two-dimensional is refused.""",
     ["inputs"], "every data matrix and number of components",
     "the tests check small identity matrices",
     [PP], [("pca", "pca"), ("svd", "svd")], ["return values"])

prop("C19", "Linear-algebra and noise utilities satisfy their defining equations",
     """For any matrix, real or complex, the null-space basis is orthonormal, annihilated by the matrix, of dimension columns minus rank (with the given tolerance); the rank decomposition lists the best approximations of every
     rank up to the last, which is the matrix itself. Adding noise keeps the shape, is the signal plus sd times standard normal draws of the
     generator seeded as asked, and an equipment tolerance converts to the standard deviation for which that share of a normal lies within it.""",
     ["inputs"], "every matrix, tolerance, signal, level and seed",
     "the tests check one or two random matrices",
     [UT], [("null space", "null_space"), ("rank", "rank_decomposition"), ("noise", "add_noise"), ("tolerance", "std_from_equipment")],
     ["return values"])

prop("C20", "Example problems and commands are reproducible and honour their arguments",
     """Example generators and command-line runs with a seed give the same result each time and a different draw for another seed where they draw; their samples lie in the requested domain, have the requested number and
     dimension, and their simulated, true and measured values are the stated model at those parameters plus noise of the stated level. Command-line options reach the experiment they name, and invalid ones
     are refused without writing any figure.""",
     ["inputs", "configurations"], "every generator, size, domain, seed and option",
     "the tests run the commands once with defaults and never compare outputs",
     [EX, "src/mud/cli.py"], [("generators", "mud.examples.*"), ("commands", "mud.examples.examples, mud.cli")],
     ["return values", "command exit codes and files"])

prop("C21", "Samples, closed forms, functionals and single rows describe one solution",
     """For any affine Gaussian problem with a full-row-rank map, every part of the library describes the same solution. Given the Gaussian initial (prior), observed (likelihood)
     and exact predicted densities, the MUD (MAP) point of a sample set is a sample of positive weight minimising the data-consistent (Bayesian) functional, so the
     closed-form solution whenever it is among the samples; minus twice the log of the updated (posterior) density is, up to a constant, that functional,
     and the functional's rise above its value at the closed-form MUD (MAP) point is the squared distance in the inverse of the updated (posterior) covariance. One pass over
     rows orthogonal in the prior covariance, in any order, ends at the closed-form MUD point. A prior covariance and the same one divided by a factor given as
     regularisation scale have the same solutions and covariances. Problems built from the data of one quantity of interest (or of several) by the spatio-temporal
     weighted mean error map, by the one-call wrapper or as a linear weighted mean error problem have the same solutions, and the one-call
     MAP wrapper those of the data kept apart.""",
     ["inputs", "configurations"], "every affine map, data, Gaussian densities, sample set and entry point",
     "the tests exercise each class alone, on one or two problems, and never compare their answers",
     [B, FU], [("samples", "DensityProblem, BayesProblem"), ("closed forms", "LinearGaussianProblem.solve/updated_cov/compute_functionals"),
           ("rows", "IterativeLinearProblem.solve, performEpoch"), ("data", "SpatioTemporalProblem.mud_problem, LinearWMEProblem, mud_problem, map_problem")],
     ["mud_point()", "map_point()", "solve()", "compute_functionals()", "updated densities"])

prop("C22", "One reproducible stream of random numbers, and calls that leave the process as they found it",
     """All noise comes from NumPy's global stream of standard normal numbers: adding noise to n values (directly, to a reference solution, or in the one-call MUD and MAP
     wrappers) takes exactly the next n numbers of the stream, in order, and a seed given with the call (any, zero included) begins the stream anew just before. So the same
     seed and calls give the same noise, drawing m and then n values is drawing m + n, no number is used twice or skipped. Nothing else draws: constructing, loading, fitting,
     solving, estimating, sub-sampling, validating, decomposing (principal components of data of any size included), meshing and plotting (but for time-series plots, which choose series)
     neither advance nor reseed it, and neither do refused arguments. No call changes NumPy's error handling or print options, matplotlib's parameters, the environment,
     Python's own generator, the working folder or the files in it.""",
     ["inputs", "histories"], "every sequence of calls on any part of the library, with seeds anywhere",
     "tests seed once and look at one call's numbers; hidden draws, reseeding and leaked settings show only in what other code does afterwards",
     [UT, B, FU, PP, PL], [("noise", "add_noise"), ("reference draws", "SpatioTemporalProblem.measurements_from_reference"), ("wrappers", "mud_problem, map_problem"),
                           ("quiet calls", "every other public function and method")],
     ["np.random.get_state()", "return values", "numpy and matplotlib settings", "working folder"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fp:
    for p in P:
        fp.write(json.dumps(p) + "\n")
print(len(P))
