#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (only properties with a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/direpack/"
PRE = [S + "preprocessing/robcent.py", S + "preprocessing/_preproc_utilities.py"]
DIF = "explicit-state exploration of operation sequences on the real objects against a fresh-object oracle"
REF = "bounded-exhaustive enumeration of inputs x configurations on the real code against an independent reference model"
P = []


def prop(i, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=i, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[{"name": a, "where": b} for a, b in mech], technique=technique, note=note))


prop("C01", "Scaling applies (x - centre)/scale per column and inverts exactly",
     "A fitted scaler maps any table to (x - centre)/scale per column, where centre and scale are the location and scale estimates of the "
     "fitting data under the chosen estimators and trimming; a column whose scale is zero is centred but not divided. The same fitted values "
     "apply to training data, new tables and single new cases, through every entry point (object and functional form), and mapping scaled data back returns the original values.",
     ["inputs", "configurations", "histories"],
     "every table, every centre/scale/trimming combination (including user-supplied estimators), every order of fit/transform/predict/inverse calls",
     "the existing tests only use the scaler with defaults as a helper on one data set",
     PRE, [("VersatileScaler", PRE[0]), ("scale_data, zero scale handling", PRE[1])], REF,
     "all tables over small alphabets up to the bound, all base tables with every single deviation, all settings, all call orders; compared cell by cell")
prop("C02", "Location and scale estimators return the statistics they are named after",
     "Mean, trimmed mean, median, spatial median, k-step least trimmed squares location, standard deviation, trimmed deviation, MAD and tau scale "
     "return, for each column of any table, the value of their textbook definition with the documented consistency factors. The spatial median "
     "minimises the sum of distances to the cases; robust estimates stay bounded when any minority of cases is replaced by arbitrarily large values.",
     ["inputs", "configurations"], "every table (ties, constants, outlying cells, missing cells where supported) and every estimator option",
     "tests pin estimators only indirectly through one regression result",
     PRE[1:], [("mean, median, l1median, kstepLTS, std, mad, scaleTau2", PRE[1])], REF,
     "exhaustive lattice tables plus all 1- and 2-cell deviations of base tables; loop level definitions as oracle")
prop("C03", "Generalised spatial sign preprocessing follows its radial function",
     "Each output case is the centred case multiplied by the chosen radial function of its Euclidean norm (spatial sign, quadratic, winsor, ball, "
     "shell, linear redescending or user supplied), with cut-offs from the (n+p+1)/2-th smallest norm. The one-pass function, the transformer on "
     "training data and the covariance matrix agree, and new data are processed with the fitted centre.",
     ["inputs", "configurations"], "every table with n >= p, every centre and radial function, every route",
     "no existing test touches this module",
     [S + "preprocessing/gsspp.py", S + "preprocessing/_gsspp_utils.py"],
     [("radial functions", S + "preprocessing/_gsspp_utils.py"), ("GenSpatialSignPreProcessor, gen_ss_pp, gen_ss_covmat", S + "preprocessing/gsspp.py")], REF,
     "exhaustive lattice tables and all single/double outlying cases x all centres x all radial functions")
prop("C04", "Wrapping leaves central values, bounds and finally rejects outlying cells",
     "Wrapping a table leaves every cell within 1.5 scale units of its column's robust location unchanged, replaces cells between 1.5 and 4 units by the "
     "hyperbolic-tangent redescending value with the same sign, and sets cells beyond 4 units to the location. Location and scale come from the data "
     "the wrapper was fitted on, whatever table is then wrapped, and columns of zero scale or missing cells do no harm to other cells.",
     ["inputs", "configurations", "histories"], "every table, fitted or one-pass, and every order of fit and transform calls",
     "no existing test touches wrapping",
     [PRE[0], PRE[1]], [("Wrapper, wrap", PRE[0]), ("wrap_univ", PRE[1])], REF,
     "exhaustive value grids across every branch boundary, lattice tables, fit/transform histories")
prop("C05", "M-estimator weight functions follow their definition on every input",
     "The Huber, Hampel and Fair weights of any array are the documented piecewise functions of each element's size: one in the centre, non-increasing, "
     "in [0,1], independent of the other elements and of the order of the data, and the input array is left unchanged. The robust loss used for model "
     "selection weights large negative and large positive residuals alike.",
     ["inputs", "configurations"], "every array of values and every admissible cut-off triple",
     "tests only exercise them inside one regression",
     [S + "sprm/_m_support_functions.py", S + "cross_validation/_cv_support_functions.py"],
     [("Fair, Huber, Hampel", S + "sprm/_m_support_functions.py"), ("robust_loss", S + "cross_validation/_cv_support_functions.py")], REF,
     "all vectors up to length 3 over a grid straddling every cut-off x cut-off triples")
prop("C06", "Sparse PLS computes the NIPALS solution and reports the true retained set",
     "For complete data the sparse partial least squares regression returns the weights, loadings, scores, inner relations, coefficients, intercept, "
     "explained variances and fitted values of the soft-thresholded NIPALS recursion in the original units for every sparsity level, number of "
     "components, centring and scaling. The reported retained variables (indices or names) are exactly those with a non-zero weight in some component, all other coefficients are exactly zero.",
     ["inputs", "configurations"], "every complete table (narrow or wide) and response, eta in [0,1), every component count, centring, scaling and naming mode",
     "one data set with one setting is pinned to a few decimals",
     [S + "sprm/snipls.py"], [("snipls.fit", S + "sprm/snipls.py")], REF,
     "all base tables x single deviations x all settings, plus lattice tables; independent NIPALS reference")
prop("C07", "Sparse partial robust M regression is the documented reweighted sparse PLS",
     "The fitted coefficients, intercepts, scores and case weights are those of the iteratively reweighted sparse partial least squares with the chosen "
     "weight function, cut-offs, centring, scaling, starting values, tolerance and iteration limit; case weights lie in [0,1] and are the product of a "
     "score-space weight and a residual weight. Variables without scale are left out, all other variables keep their identity (reported indices or "
     "names), and new cases get the weight of their standardised scores.",
     ["inputs", "configurations"], "every table with up to two outlying cases or scale-less columns, every setting",
     "one data set with two settings is pinned to a few decimals",
     [S + "sprm/sprm.py", S + "sprm/snipls.py", S + "sprm/_m_support_functions.py"], [("sprm.fit, weightnewx", S + "sprm/sprm.py")], REF,
     "base tables x outlier positions x settings; independent reweighting reference, ill-conditioned executions excluded by a perturbation guard")
prop("C08", "Robust M regression is the documented reweighted least squares",
     "The fitted coefficients, intercepts (scaled and original units), fitted values and case weights are those of iteratively reweighted least squares with the chosen weight "
     "function, cut-offs, centring, scaling, tolerance and iteration limit. Positive and negative outlying responses are treated "
     "alike, case weights lie in [0,1], and cases rejected by the weight function get weight exactly zero.",
     ["inputs", "configurations"], "every table with up to two outlying cases, every setting",
     "one data set with one setting is pinned to a few decimals",
     [S + "sprm/rm.py", S + "sprm/_m_support_functions.py"], [("rm.fit", S + "sprm/rm.py")], REF,
     "base tables x every outlier position and kind x settings; independent reference")
prop("C09", "A fitted model agrees with its own predictions and scores, row by row",
     "For every regression and dimension reduction in the package: fitted values equal predictions of the training data, residuals equal response minus "
     "fitted, stored scores equal the transformation of the training data. Predicting or transforming a row gives the same answer whatever other "
     "rows are in the batch, and leaves the fitted model unchanged.",
     ["inputs", "configurations", "histories"], "every estimator and setting, every training table, every way of batching rows",
     "tests compare one stored result and never call predict or transform on batches",
     [S + "sprm/sprm.py", S + "sprm/snipls.py", S + "sprm/rm.py", S + "ppdire/ppdire.py", S + "sudire/sudire.py"],
     [("fit/predict/transform", S + "sprm, ppdire, sudire")], REF,
     "catalogue of configurations x datasets x all two-way splits, single rows, reversal, repetition")
prop("C10", "Product-moment statistics equal their definitions",
     "Moments, variance, standard deviation, skewness, kurtosis, covariance, co-moments of any order and kind, co-skewness, co-kurtosis, correlation and "
     "continuum association of any data equal the textbook formula with the chosen centring, trimming and bias correction. Location shifts change "
     "nothing, rescaling acts with the right power, and the order of cases is irrelevant.",
     ["inputs", "configurations"], "every pair of data vectors and every mode, order, option, centring, trimming and bias correction",
     "tests pin a dozen values on one data set",
     [S + "dicomo/dicomo.py", S + "dicomo/_dicomo_utils.py"], [("dicomo.fit", S + "dicomo/dicomo.py"), ("trim_mom", S + "dicomo/_dicomo_utils.py")], REF,
     "all short vectors over an alphabet and base vectors with deviations x all modes")
prop("C11", "Distance statistics: fast, naive and defining computation agree",
     "Distance variance, covariance, correlation and martingale difference divergence of any samples (one or several columns) equal the definition through doubly centred "
     "distance matrices, whichever computation mode is chosen and with or without bias correction. They are unaffected by shifts and by the order of cases, scale with the "
     "data's unit, and distance correlation lies between zero and one.",
     ["inputs", "configurations"], "every pair of samples, mode, bias correction, computation mode",
     "tests pin three values on one data set",
     [S + "dicomo/dicomo.py", S + "dicomo/_dicomo_utils.py"], [("distance branch", S + "dicomo/dicomo.py"), ("distance_matrix_centered, distance_moment, difference_divergence, MDDM", S + "dicomo/_dicomo_utils.py")], REF,
     "all short vectors over an alphabet, base tables with deviations; loop level energy statistics as oracle")
prop("C12", "The co-moment analysis index is the weighted sum of the selected co-moments",
     "The co-moment analysis projection index of a score and response equals the weighted sum of the selected (co-)moments of order two up to the chosen "
     "degree, each computed with the chosen statistic, bias correction and scaling, with each weight applied to its own moment. Repeated evaluation gives the same value.",
     ["inputs", "configurations", "histories"], "every data pair, degree, weighting, scaling and option",
     "no existing test touches this index", [S + "ppdire/capi.py"], [("capi.fit", S + "ppdire/capi.py")], REF,
     "all weight vectors and degrees on base vectors; sum recomputed from the definitions")
prop("C13", "Projection pursuit components are unit-norm, orthogonal and reconstruct the data",
     "For any data, projection index and optimiser the projection pursuit model has unit-norm weights, mutually orthogonal scores, loadings that are the "
     "least-squares loadings of the deflated data, and explained variances that follow from them. With a response, the coefficients per component reproduce the "
     "regression of the response on the scores in original units, for least squares, robust and quantile regression alike.",
     ["inputs", "configurations"], "every table, index, optimiser, number of components, centring and scaling option, regression option",
     "two fits on one data set are compared with scikit-learn to three decimals",
     [S + "ppdire/ppdire.py", S + "ppdire/_ppdire_utils.py"], [("ppdire.fit deflation loop", S + "ppdire/ppdire.py")], REF,
     "configurations x base tables with deviations; every algebraic identity checked per component")
prop("C14", "Projection pursuit finds the best direction of its index",
     "With the native grid search on two variables the returned direction has the largest index value among all directions of the grid, and the reported "
     "optimum is the index at that direction. General optimisers are asked to maximise exactly the index of the projected deflated data over unit-norm directions, and whenever the optimiser converges the "
     "variance and squared covariance indices give the principal components and the partial least squares directions.",
     ["inputs", "configurations"], "every table and index, every grid size, every component",
     "one data set, no grid search at all",
     [S + "ppdire/ppdire.py", S + "ppdire/_ppdire_utils.py"], [("gridplane, gridplane_2, pp_objective", S + "ppdire/_ppdire_utils.py")], REF,
     "whole direction grid re-evaluated for every table; spectral reference for PCA/PLS")
prop("C15", "Slicing and moment based sufficient dimension reduction equal their definition",
     "Sliced inverse regression, sliced average variance, directional regression, principal Hessian directions and iterative Hessian transformations return an "
     "ordered basis of the leading eigenspace (largest eigenvalues) of their defining matrix, expressed for the original predictors, with unit-variance scores when scaling is on and orthonormal directions otherwise. A continuous response is cut into the requested number of ordered slices, a discrete one into its classes; the subspace is equivariant "
     "under affine changes of the predictors, and predictions are the least-squares regression of the response on the scores.",
     ["inputs", "configurations"], "every full-rank table and response, number of slices and components, centring and scaling option",
     "norms of four bases on one simulated data set",
     [S + "sudire/sudire.py", S + "sudire/_sudire_utils.py"], [("SIR, SAVE, DR, PHD, IHT, discretize", S + "sudire/_sudire_utils.py"), ("sudire.fit", S + "sudire/sudire.py")], REF,
     "base tables x deviations x methods x slices x dimensions; independent eigen-decomposition, subspace comparison, affine orbit")
prop("C16", "Bootstrap dimension estimate follows its resamples",
     "The structural dimension estimate resamples cases with predictors and response kept together, averages the distances between the full-data and resampled subspaces for each candidate "
     "dimension, and returns the candidate with the smallest average together with all averages, whatever the resamples drawn.",
     ["inputs", "configurations", "schedules"], "every sequence of bootstrap draws, method, table",
     "depends on the random generator; no test fixes the draws",
     [S + "sudire/sudire.py"], [("estimate_structural_dim", S + "sudire/sudire.py")],
     "enumeration of environment answers (all bootstrap draws from an alphabet of resamples) replayed into the real code",
     "random generator replaced by an enumerated script of draws; reference recomputes the averages")
prop("C17", "Fitting depends only on settings and data, never on history",
     "Fitting an estimator object that has been used before (fitted on other data, used for prediction, copied, reconfigured through its parameters) gives exactly the model a new "
     "object with the same settings would give, and neither fitting nor using an object changes its settings.",
     ["histories", "configurations"], "every sequence of fit, predict, transform, set-parameter and copy operations",
     "tests fit each object once",
     [S + "sprm/sprm.py", S + "sprm/snipls.py", S + "sprm/rm.py", S + "ppdire/ppdire.py", S + "sudire/sudire.py", S + "dicomo/dicomo.py", S + "ppdire/capi.py", PRE[0], S + "preprocessing/gsspp.py"],
     [("fit methods", "all estimators")], DIF,
     "all operation sequences up to the depth bound over a per-estimator alphabet; states deduplicated; every reached state compared with a fresh object")
prop("C18", "Inputs are never modified",
     "No call of any estimator or function of the package changes the arrays, data frames, option dictionaries or lists handed to it, and changing the caller's data afterwards does not change a model "
     "fitted with copying enabled.",
     ["inputs", "configurations", "histories"], "every public entry point, container, memory layout and option",
     "no test compares inputs before and after",
     [S + "sprm/sprm.py", S + "sprm/snipls.py", S + "ppdire/ppdire.py", S + "sudire/sudire.py", S + "dicomo/dicomo.py", S + "ipopt_temp/ipopt_wrapper.py", PRE[1]],
     [("fit/predict/transform", "all estimators")], DIF,
     "every entry point x container x layout; bitwise comparison before and after each call")
prop("C19", "Results do not depend on the container, dtype or memory layout of the data",
     "The same numbers give the same model, predictions and statistics whether they arrive as array, data frame, series, one-column frame, integer or object values, Fortran-ordered or strided array.",
     ["inputs", "configurations"], "every estimator, every container combination for predictors, response and new data",
     "each test uses one container",
     [S + "utils/utils.py", S + "sprm/sprm.py", S + "sprm/snipls.py", S + "sprm/rm.py", S + "ppdire/ppdire.py", S + "sudire/sudire.py"],
     [("input checks", S + "utils/utils.py")], REF,
     "full product of containers for X, y and new data per estimator, compared with the plain array result")
prop("C20", "Invalid settings and mismatched data are refused, valid ones accepted",
     "Out-of-range or unknown settings (component counts, sparsity, weight functions, cut-off probabilities, trimming, centring names, moment modes, dimension reduction methods) and data of the wrong shape (case counts that differ, new "
     "data with another number of columns) are refused with an error; every valid setting on the border of the range is accepted.",
     ["inputs", "configurations"], "every setting from below to above its documented range, every shape mismatch",
     "no test checks a refusal",
     [S + "sprm/sprm.py", S + "sprm/snipls.py", S + "sprm/rm.py", S + "ppdire/ppdire.py", S + "sudire/sudire.py", S + "dicomo/dicomo.py", PRE[1]],
     [("argument checks", "constructors and fit methods")],
     "exhaustive accept/reject table over the setting lattice on the real code",
     "every setting value just inside and outside its range, all pairs for the cut-off probabilities")
prop("C21", "Estimators behave as scikit-learn components",
     "All estimators can be cloned, pickled, nested in pipelines and tuned by grid search with results identical to calling them directly: cloning keeps every setting, settings read back as set, a pipeline equals the chain of "
     "its steps, and a grid search's score table lists each candidate with its own scores.",
     ["configurations", "histories"], "every estimator and setting, clone/pickle/pipeline/grid-search composition",
     "no test uses pipelines, cloning or model selection",
     [S + "sprm/sprm.py", S + "ppdire/ppdire.py", S + "sudire/sudire.py", S + "preprocessing/gsspp.py", S + "cross_validation/_cv_support_functions.py"],
     [("get_params/set_params", "all estimators"), ("cv_score_table, robust_loss", S + "cross_validation/_cv_support_functions.py")], DIF,
     "every catalogue configuration through every composition, compared with the hand-driven chain")
prop("C22", "The interior-point adapter passes the problem on faithfully",
     "Whatever sequence of points and callbacks the interior-point solver uses, the adapter answers with the user's objective, constraint values and derivatives at the point asked, with the "
     "constraints' order, signs, arguments and bounds preserved, and never answers from a stale point. Options are passed without being altered and the solver's answer is returned as is.",
     ["schedules", "inputs", "configurations"], "every order of solver callbacks over every pair of points (buffers reused or not), every constraint and bound list",
     "the solver is not installed where tests run",
     [S + "ipopt_temp/ipopt_wrapper.py", S + "ipopt_temp/jacobian.py"], [("IpoptProblemWrapper, minimize_ipopt", S + "ipopt_temp/ipopt_wrapper.py"), ("approx_jacobian", S + "ipopt_temp/jacobian.py")],
     "explicit-state exploration of all callback sequences of a stand-in solver driving the real adapter",
     "solver replaced by an enumerated caller; all callback sequences to the depth bound over small point sets")
prop("C23", "Plots show exactly the model's numbers",
     "Every plot draws the model's own quantities: each case at its scores, predictions or weight, each bar at its coefficient, with each label on its own case or variable, for training and new data, with "
     "flagged cases by the stated weight threshold.",
     ["inputs", "configurations"], "every model, component pair, naming mode, data split",
     "no test draws a plot",
     [S + "plot/sprm_plot.py", S + "plot/ppdire_plot.py", S + "plot/sudire_plot.py"], [("plot methods", S + "plot")], REF,
     "drawn artists read back from the figure for every plot kind x naming mode x split and compared with the model")
prop("C24", "Regressions and reductions are equivariant under relabelling and change of units",
     "Permuting cases permutes case-wise results and nothing else, permuting variables permutes variable-wise results, changing the unit or origin of the response or, where scaling is on, of predictors changes "
     "coefficients and predictions accordingly, and reversing the response's sign reverses the model.",
     ["inputs", "configurations"], "every table, estimator and setting; every transposition of cases and variables, unit and origin change, sign change",
     "tests use one data set in one order and unit",
     [S + "sprm/sprm.py", S + "sprm/snipls.py", S + "sprm/rm.py", S + "ppdire/ppdire.py", S + "sudire/sudire.py", PRE[1]], [("fit", "all estimators")],
     "exhaustive orbit exploration (all generators of the permutation group, unit changes) on the real code",
     "all adjacent transpositions, cyclic shift and reversal of cases and variables x unit/origin/sign changes")
prop("C25", "Missing cells are skipped, never spread",
     "With missing cells, sparse PLS and the column statistics use every observed cell and ignore the missing ones: the estimates equal the definition computed over observed cells only, no non-missing result becomes missing, and with no cell "
     "missing the results are those for complete data. The missing-aware vector and matrix products equal the ordinary products with missing terms left out, in shape and value.",
     ["inputs", "configurations"], "every position of one or two missing cells in every base table",
     "no test has a missing cell",
     [S + "sprm/snipls.py", S + "utils/utils.py", PRE[1]], [("nandot, nanmatdot", S + "utils/utils.py"), ("nan aware estimators", PRE[1])], REF,
     "all single and double missing-cell patterns x settings; observed-cell reference")
prop("C26", "Optimisation based reduction poses the right problem and maps back any answer",
     "Distance covariance, martingale difference and user-supplied sufficient dimension reduction ask the solver to optimise exactly that criterion of the projected standardised data under the documented orthonormality constraints, starting from the "
     "best of the slicing solutions or the user's start. Whatever the solver answers is returned as the basis for the original predictors, with scores and predictions following from it.",
     ["inputs", "configurations", "schedules"], "every table, method, dimension and every solver answer",
     "the solver is not installed where tests run",
     [S + "sudire/sudire.py", S + "sudire/_sudire_utils.py", S + "utils/utils.py"], [("optimisation branch of sudire.fit", S + "sudire/sudire.py"), ("dcov_trim, mdd_trim", S + "sudire/_sudire_utils.py"), ("const_xscale, const_zscale", S + "utils/utils.py")],
     "enumeration of solver answers through a stand-in solver; criterion and constraints compared with their definition at enumerated points",
     "solver replaced by an enumerated answerer; objective and constraints evaluated at a grid of points")
prop("C27", "Scores of fitted models are the determination of their own predictions",
     "The score of any fitted regression or reduction model on any data (training, new, any batch of cases, weighted or not, response as array, column, series or frame) is the coefficient of determination "
     "of the model's predictions for exactly these cases. The validation score of sparse robust regression is the same without weights, or with the model's case weights, and scoring leaves the model unchanged.",
     ["inputs", "configurations", "histories"], "every fitted model, every batch of cases and every case weighting",
     "no existing test evaluates a score",
     [S + "sprm/sprm.py", S + "sprm/snipls.py", S + "sprm/rm.py", S + "ppdire/ppdire.py", S + "sudire/sudire.py"],
     [("valscore", S + "sprm/sprm.py"), ("score (RegressorMixin)", S + "sprm/snipls.py"), ("predict of every model", S + "ppdire/ppdire.py")], REF,
     "all contiguous batches and pairs, all leave-one-out weightings x containers; loop level coefficient of determination as oracle")
prop("C28", "Full-dimensional unweighted models reproduce ordinary least squares",
     "With as many components as variables, no sparsity, no case rejected and mean centring, every regression and reduction of the package (sparse PLS, robust M and sparse robust regression, projection pursuit with variance, covariance, continuum or distance index, "
     "slicing reductions) gives the coefficients, fitted values, residuals and predictions of ordinary least squares with intercept, whatever the scaling, units and offsets.",
     ["inputs", "configurations"], "every table of full column rank and every full-dimensional configuration",
     "tests compare single norms of low-dimensional models only",
     [S + "sprm/sprm.py", S + "sprm/snipls.py", S + "sprm/rm.py", S + "ppdire/ppdire.py", S + "sudire/sudire.py"],
     [("snipls", S + "sprm/snipls.py"), ("sprm", S + "sprm/sprm.py"), ("rm", S + "sprm/rm.py"), ("ppdire regression of the response on the scores", S + "ppdire/ppdire.py"), ("sudire predictions", S + "sudire/sudire.py")], REF,
     "all lattice tables, base tables with every single deviating case, offsets, units, duplicates x all full-dimensional configurations; least squares as oracle")


prop("C29", "Calls leave nothing behind in the session",
     "No call of the package (fit, refused fit, predict, transform, score, any function, any plot) changes anything outside its result: random number generators (except where resampling draws from them), floating point error "
     "handling, warning filters, settings of the plotting and table libraries, working directory, default arguments, class attributes or module state. Two estimator objects never influence each other: a model comes out as if no other had been fitted.",
     ["histories", "configurations"], "every operation of the package, and every ordered pair of model configurations in one session",
     "tests run each object in isolation and never look at the session",
     [S + "sprm/sprm.py", S + "sprm/snipls.py", S + "sprm/rm.py", S + "ppdire/ppdire.py", S + "sudire/sudire.py", S + "dicomo/dicomo.py", S + "plot/sprm_plot.py", S + "plot/ppdire_plot.py", S + "plot/sudire_plot.py", S + "ipopt_temp/ipopt_wrapper.py"],
     [("default arguments and class attributes", "all estimators"), ("plot methods", S + "plot/sprm_plot.py"), ("estimate_structural_dim", S + "sudire/sudire.py")], DIF,
     "one-state exploration of the session under every operation, all ordered pairs of configurations against a session of their own")


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in have:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": p["mech"]}}
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, sklearn, pandas, statsmodels, dcor' && chmod +x check",
           "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": "model checking: " + p["technique"],
                       "level": "model_checking", "level_note": p["note"]} for p in have],
           "not_applicable": [],
           "notes": "No hooks in /repo. Checks import the package from /repo/src of the working tree; see DESIGN.md."}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(have), "properties")


main()
