#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the texts of the properties)."""
import json, os
SOLV = ["src/solvers/anderson_cd/mod.rs", "src/solvers/anderson_bcd/mod.rs", "src/solvers/impl_solver.rs"]
SP, BP = "src/penalties/separable/mod.rs", "src/penalties/block_separable/mod.rs"
SD, MD = "src/datafits/single_task/mod.rs", "src/datafits/multi_task/mod.rs"
DS = ["src/datasets/impl_design_matrix.rs", "src/datasets/csc_array.rs", "src/datasets/mod.rs"]
EST, HYP = "src/estimators/estimators.rs", "src/estimators/hyperparams.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

W = ("w / W", "coefficients, one row of n_tasks entries per feature", "coordinate_descent / block_coordinate_descent")
XW = ("Xw / XW", "model fit, kept equal to X.w incrementally", "coordinate_descent / block_coordinate_descent")
WS = ("ws", "features optimised by the inner loop of one outer iteration", "construct_ws_from_kkt")
BUF = ("last_K_w", "the last K+1 iterates restricted to the working set", "anderson_accel")

prop("C01", "Single-task Lasso and elastic-net fits are certified optima",
 "For every finite design matrix (dense or sparse) and target vector, every regularization strength, mixing ratio in [0,1], working-set size, number of extrapolation points and acceleration setting, a least-squares Lasso or elastic-net fit that is given enough iterations returns finite coefficients whose first-order optimality violation is at most the requested tolerance (up to rounding), so that no other coefficient vector has a meaningfully lower objective. "
 "A feature with a zero column gets a zero coefficient.",
 ["inputs", "configurations"], "all data sets, alpha >= 0, l1_ratio in [0,1], tolerances, working-set sizes, K >= 1, acceleration on/off, dense/sparse, estimator or solver API",
 "The tests fit a handful of seeded Gaussian matrices with one configuration; most of them only check shapes or one KKT value with alpha/100.",
 SOLV + [SP, SD, EST], [("outer loop stops only when the largest violation over all features is <= tolerance", "src/solvers/anderson_cd/mod.rs: coordinate_descent"), ("L1 / L1PlusL2 prox and subdiff_distance", SP), ("Quadratic gradient and Lipschitz constants", SD)],
 ["Lasso/ElasticNet fit -> coefficients()", "Solver::solve"], [W, XW])
prop("C02", "Multi-task Lasso and elastic-net fits are certified optima",
 "For every finite design matrix (dense or sparse) and target matrix with one or more tasks, every regularization strength, mixing ratio in [0,1], working-set size, number of extrapolation points and acceleration setting, a multi-task Lasso or multi-task elastic-net fit that is given enough iterations returns a finite matrix with one row per feature and one column per task whose first-order optimality violation (in row norm) is at most the requested tolerance, up to rounding. "
 "Rows are either entirely zero or selected jointly for all tasks.",
 ["inputs", "configurations"], "all data sets and target matrices, alpha >= 0, l1_ratio in [0,1], tolerances, working-set sizes, K >= 1, acceleration on/off, dense/sparse",
 "The tests fit a few seeded matrices; the multi-task elastic net is never certified on rows that are null in some task only, and the tests are insensitive to a wrong distance on null rows.",
 SOLV + [BP, MD, EST], [("outer loop stops only when the largest row violation is <= tolerance", "src/solvers/anderson_bcd/mod.rs: block_coordinate_descent"), ("L21 / BlockL1PlusL2 prox and subdiff_distance", BP), ("QuadraticMultiTask gradient", MD)],
 ["MultiTaskLasso/MultiTaskElasticNet fit -> coefficients()", "Solver::solve_multi_task"], [W, XW])
prop("C03", "Non-convex fits return critical points no worse than zero",
 "For every finite data set, alpha >= 0 and gamma >= 1 (also when a feature's curvature makes the coordinate problem concave), a minimax-concave or block minimax-concave fit, and a solve with the L0.5 penalty, given enough iterations (and an attained infimum) returns finite coefficients that are a critical point of its objective to within the tolerance and whose objective does not exceed that of the null vector. "
 "With the L0.5 penalty it returns a point that its coordinate-wise proximal updates leave unchanged to within the tolerance, so it does not stop at the null vector when such an update would leave it.",
 ["inputs", "configurations"], "all data sets, alpha, gamma >= 1, column scales, working-set sizes, K, acceleration, dense/sparse",
 "The tests use unit-variance Gaussian columns and gamma = 3 or 10, where the coordinate problems stay convex, and the L0.5 penalty is never run through the solver.",
 SOLV + [SP, BP, EST], [("MCP / BlockMCP / L05 prox", SP), ("subdiff_distance of MCP and BlockMCP", BP), ("fixed-point criterion for L05", SP)],
 ["MCPEstimator/BlockMCPEstimator coefficients()", "Solver::solve with L05"], [W])
prop("C04", "Sparse logistic regression reaches its optimum",
 "For every finite design matrix (dense or sparse) and every vector of labels in {-1,+1}, minimising the average logistic loss plus an L1 or elastic-net penalty with enough iterations returns finite coefficients whose first-order optimality violation is at most the tolerance, up to rounding. "
 "Every coordinate update lowers the objective, whatever the scale of the features.",
 ["inputs", "configurations"], "all data sets, labels, alpha > 0, working-set sizes, K, acceleration, dense/sparse",
 "The repository never runs the solver with the logistic datafit; unit tests compare a few gradient entries to constants.",
 [SD, SOLV[0], SP, "src/utils/mod.rs"], [("Logistic::{value,gradient_j,initialize}", SD), ("sigmoid", "src/utils/mod.rs")],
 ["Solver::solve with Logistic"], [W, XW])
prop("C05", "The objective never increases with a larger budget",
 "For every data set, supported loss and penalty, and configuration (acceleration on or off), the objective of the returned coefficients is non-increasing in the number of outer iterations allowed (for a fixed number of passes each) and, within one outer iteration, in the number of passes allowed, and never exceeds the objective of the null vector. "
 "So it decreases pass by pass, including the passes at which an extrapolated point is tried and those at which the working set changes.",
 ["histories", "configurations", "inputs"], "every prefix of the sequence of passes and outer iterations of a run, for all data and configurations",
 "Tests only look at final coefficients; an extrapolation accepted against a stale or wrong objective, or a wrong step size, still converges on their data.",
 SOLV + [SP, BP, SD, MD], [("exact proximal step with the Lipschitz constant", "coordinate_descent inner loop"), ("acceptance test of the extrapolated point", "anderson_accel")],
 ["solve with max_epochs = 0,1,2,... and max_iterations = 0,1,2,..."], [W, XW, BUF])
prop("C06", "A pass applies the exact proximal step to each working-set feature",
 "During one pass every feature of the working set with a non-zero column is updated once, in sequence, to the proximal point of a gradient step of length 1/L_j from the current model fit, where L_j is that feature's curvature bound, and features outside the working set keep their value. "
 "The model fit used by later updates is always the product of the design matrix and the current coefficients, so the iterates after any number of passes and outer iterations are those of the reference coordinate-descent machine.",
 ["histories", "inputs", "configurations"], "every pass of every run: all data, losses, penalties, storage formats, working-set sizes, budgets",
 "No test observes intermediate iterates: only end points of convergent runs are compared, and many wrong updates share the same fixed points.",
 SOLV + DS + [SP, BP, SD, MD], [("inner loop over ws", "coordinate_descent / block_coordinate_descent"), ("update_model_fit / update_model_fit_multi_task", DS[0])],
 ["solve with small max_epochs / max_iterations"], [W, XW, WS])
prop("C07", "Working sets: size law, top violators, active features kept",
 "The working set of an outer iteration has max(min(start size, p), min(2*active, p)) distinct features, contains every feature whose coefficient is non-zero, and otherwise the features with the largest optimality violation; within one outer iteration only its features change. "
 "Whatever the start size (1 up to more than the number of features), all features violating optimality eventually enter and the fit converges to the same optimum.",
 ["inputs", "histories", "configurations"], "all violation vectors, coefficient vectors, start sizes; all outer iterations of all runs, more than 20 features included",
 "One unit test checks one vector of violations; solver tests use working sets as large as the problem or only final values.",
 [SOLV[0], SOLV[1], "src/utils/mod.rs"], [("construct_ws_from_kkt", SOLV[0]), ("argsort_by", "src/utils/mod.rs"), ("clamping of ws_start_size", SOLV[0])],
 ["construct_ws_from_kkt return value", "support of coefficients after one outer iteration", "opt_cond_violation"], [WS])
prop("C08", "Acceleration, K, verbosity and working-set size do not change the answer",
 "Switching acceleration on or off, changing the number of extrapolation points (1 or more, also more than the number of features), the starting working-set size or the verbosity never makes a fit panic or return non-finite values, and for problems with a unique optimum yields the same coefficients up to the tolerance; verbosity never changes a single bit. "
 "An extrapolated point replaces the current iterate only if it has a strictly lower objective.",
 ["configurations", "inputs"], "all combinations of acceleration, K, working-set size, verbosity on all data sets",
 "Tests fix K = 5 and a working set of at least K entries; a wrong extrapolation is silently rejected by the objective test or crashes only for small working sets.",
 SOLV, [("anderson_accel", SOLV[0]), ("anderson_accel", SOLV[1]), ("solve_lin_sys", "src/utils/mod.rs")],
 ["fit results across configurations", "panics"], [BUF])
prop("C09", "Anderson extrapolation uses the affine minimal-residual combination",
 "With acceleration on, after every K+1 passes on a working set the solver tries the affine combination (weights summing to one) of the K oldest of the last K+1 iterates whose combined successive differences have minimal norm, and keeps whichever of this point and the current iterate has the lower objective; the buffer restarts with each working set. "
 "On all other passes, and when the weights cannot be computed, the iterate is that of plain coordinate descent.",
 ["histories", "inputs", "configurations"], "all K, all positions of the extrapolation in the run, single- and multi-task, dense and sparse",
 "The tests only check one direct call; the acceptance test hides wrong weights, stale buffers and extrapolations at the wrong pass.",
 [SOLV[0], SOLV[1], "src/utils/mod.rs"], [("anderson_accel", SOLV[0]), ("anderson_accel", SOLV[1])],
 ["solve with max_epochs = m(K+1)-1, m(K+1), m(K+1)+1 with and without acceleration"], [BUF, W])
prop("C10", "Storage format is transparent",
 "The same design matrix stored as a row-major or column-major dense array, as a borrowed or strided view, or as compressed sparse columns (any order of entries within a column, explicit zeros, empty columns) yields the same coefficients up to rounding, for every estimator, loss, penalty, budget and configuration. "
 "The input arrays are never modified.",
 ["inputs", "configurations"], "all matrices in all storage formats, all estimators, all budgets",
 "Sparse tests use a few small hand-written matrices and mostly compare to the dense result for one estimator after convergence.",
 DS + [SD, MD, EST], [("DesignMatrix for ArrayBase and CSCArray", DS[0]), ("Datafit for CSCArray", SD), ("MultiTaskDatafit for CSCArray", MD)],
 ["fit on each storage format"], [XW])
prop("C11", "Budgets, degenerate data and termination",
 "Every fit terminates without panicking for any valid configuration: a budget of zero outer iterations or zero passes returns the null coefficients, more budget after convergence changes nothing, and data with one sample, one feature, one task, zero or duplicated or constant columns, a zero target, or more features than samples give finite coefficients of the right shape. "
 "Features with a zero column always keep a zero coefficient.",
 ["inputs", "configurations"], "all shapes n,p,T >= 1, degenerate columns and targets, budgets from 0, all estimators",
 "The tests only use full-rank Gaussian data with generous budgets.",
 SOLV + [EST, SP, BP], [("skip of zero Lipschitz constants", SOLV[0]), ("break when the violation is <= tolerance", SOLV[0]), ("loops over 0..max_iterations and 0..max_epochs", SOLV[0])],
 ["fit results"], [W])
prop("C12", "alpha_max is the exact null-solution threshold",
 "The helper for the maximal regularization (vector targets, matrix targets, sparse design) returns max_j ||X_j^T Y|| / n; for every data set, every Lasso-type, elastic-net (with alpha multiplied by a positive ratio) or minimax-concave fit with regularization at or above it returns exactly the null coefficients, and every convex fit below it (by more than the tolerance) has a non-zero coefficient. "
 "Dense and sparse helpers agree.",
 ["inputs", "configurations"], "all data sets with alpha on both sides of the threshold, all penalties, single and multi-task",
 "Tests evaluate the helpers as inputs to other tests on a single seed, never the threshold itself from both sides.",
 ["src/utils/mod.rs"] + SOLV[:2] + [SP, BP], [("compute_alpha_max*", "src/utils/mod.rs"), ("subdiff_distance at zero", SP)],
 ["compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse", "coefficients at alpha around the threshold"])
prop("C13", "Proximal operators return the global minimiser",
 "For every value, step size > 0 and hyperparameter, the proximal operator of each penalty (L1, L1+L2, MCP, L0.5, L2,1, block L1+L2, block MCP) returns a global minimiser of half the squared distance to the value plus the step times the penalty: thresholds are exact, signs or directions are preserved, and results are finite. "
 "The free-standing thresholding functions behave the same.",
 ["inputs", "configurations"], "all reals / vectors, steps, alpha >= 0, ratios in [0,1], gamma >= 1, in both concave and convex regimes, including zero values and zero thresholds and values exactly at thresholds",
 "Unit tests compare a few constants in one regime per penalty.",
 [SP, BP, "src/utils/mod.rs"], [("Penalty::prox", SP), ("MultiTaskPenalty::prox", BP), ("soft_thresholding, block_soft_thresholding, prox_05", "src/utils/mod.rs")],
 ["prox return values"])
prop("C14", "Penalty values and optimality distances are exact",
 "For every coefficient array, gradient and feature subset, each penalty's value equals its documented formula, and its optimality distance equals, feature by feature, the Euclidean distance between the negative gradient and the penalty's subdifferential at the coefficients, with the reported maximum equal to the largest entry. "
 "A coefficient that is a proximal fixed point has zero distance.",
 ["inputs", "configurations"], "all coefficients (zero, inside, at and beyond the flat region), gradients, subsets in any order, hyperparameters",
 "Unit tests check one weight vector per penalty; some branches (null rows, concave part) are unobserved or insensitive.",
 [SP, BP] + SOLV[:2], [("value and subdiff_distance of every penalty", SP), ("value and subdiff_distance of every block penalty", BP), ("opt_cond_violation, construct_grad", SOLV[0])],
 ["Penalty::value, subdiff_distance", "MultiTaskPenalty::value, subdiff_distance", "opt_cond_violation"])
prop("C15", "Losses, gradients and curvature bounds are consistent",
 "For every data set (dense or sparse) and model fit, each loss (quadratic, multi-task quadratic, logistic) returns the value of its documented formula, its per-feature gradient is the exact derivative of that value, the full gradient stacks the per-feature ones, and the per-feature curvature bound is the exact (quadratic) or quarter (logistic) mean square of the column. "
 "Values stay finite for every finite input, and a second initialisation on another data set leaves no trace of the first.",
 ["inputs", "histories"], "all data, all fits including large margins, re-initialisations, dense and sparse",
 "Unit tests compare a few numbers on one 2x3 or 5x5 example and never use large margins or re-initialise.",
 [SD, MD, "src/utils/mod.rs"], [("Quadratic, Logistic", SD), ("QuadraticMultiTask", MD), ("sigmoid", "src/utils/mod.rs")],
 ["Datafit and MultiTaskDatafit methods"], [("lipschitz, Xty", "quantities cached by initialize", SD)])
prop("C16", "Hyperparameters are validated before fitting",
 "For every estimator and every combination of finite hyperparameters, fitting, checking by reference and checking by value agree: they reject exactly the sets with negative regularization, gamma below 1, mixing ratio outside [0,1], negative tolerance, zero extrapolation points or zero working-set size, with the error naming the first offending hyperparameter and its value, and accept all others. "
 "A rejected set never produces coefficients or a panic.",
 ["configurations"], "all six estimators, all combinations of valid/invalid/boundary hyperparameters, both precisions, dense and sparse fits",
 "Tests try one invalid value at a time for some estimators; the check by reference used by fit is separate code for each of the six estimators.",
 [HYP, "src/estimators/param_guard.rs", "src/estimators/error.rs"], [("check_ref / check", HYP), ("blanket Fit for ParamGuard", "src/estimators/param_guard.rs")],
 ["check, check_ref, fit results"], [("params", "unchecked hyperparameter set built by setters", HYP)])
prop("C17", "Every hyperparameter reaches the solver it configures",
 "For every estimator and every sequence of setter calls, the checked hyperparameters read back are the last value given to each setter and the documented default for the others, and a fit with them equals bit for bit a solve of the corresponding loss and penalty with a solver configured with the same values. "
 "This holds for dense and sparse data and for each of the six estimators.",
 ["configurations", "histories"], "all setter sequences, values and orders; all six estimators; dense and sparse",
 "Twelve hand-copied fit implementations and six hand-copied builders are only exercised with near-default settings whose effects coincide after convergence.",
 [HYP, EST, "src/solvers/impl_solver.rs", "src/solvers/mod.rs"], [("setters and getters", HYP), ("fit implementations", EST), ("Solver builder", "src/solvers/impl_solver.rs")],
 ["getters of checked params", "coefficients of estimator vs solver with tiny budgets"], [("params", "unchecked hyperparameter set built by setters", HYP)])
prop("C18", "Fits are repeatable and independent of history",
 "Fitting is a pure function of data and configuration: repeating a fit, reusing an estimator configuration, loss, penalty or solver object after fits on other data of any shape, or interleaving several fits gives bit-identical coefficients, and neither the data nor the configuration is modified. "
 "A solve always starts from the null vector.",
 ["histories", "inputs"], "all interleavings of fits on shared estimator, loss, penalty and solver objects with different data shapes and storage formats",
 "Every test builds fresh objects and fits once.",
 SOLV + [SD, MD, EST], [("initialize recomputes all cached quantities", SD), ("w, Xw, buffers are local to the solve", SOLV[0])],
 ["coefficients over sessions of fits"], [("lipschitz, Xty", "quantities cached by initialize", SD)])
prop("C19", "Models reduce to each other where their definitions coincide",
 "For all data and configurations: a multi-task fit with one task equals the single-task fit; an elastic net with mixing ratio 1 equals the Lasso, and with ratio 0 has no sparsity term; a minimax-concave fit with infinite gamma equals the Lasso; and a multi-task problem whose tasks are copies of one target has identical columns. "
 "The same holds for the penalties' values, proximal operators and distances.",
 ["inputs", "configurations"], "all data, configurations and budgets for each pair of coinciding models",
 "No test compares two estimators with each other.",
 SOLV + [SP, BP, EST], [("separable and block penalties", SP), ("block penalties", BP)],
 ["coefficients of the paired fits at equal budgets"])
prop("C20", "Fits are equivariant under symmetries of the problem",
 "Permuting samples, flipping the sign of the targets, flipping the sign of a column, permuting features or tasks, duplicating the whole sample, and scaling targets together with the regularization (and tolerance), and measuring the design or the targets in other units transform the fitted coefficients in the corresponding way, up to the tolerance, for every estimator with a unique optimum. "
 "Appending zero columns or all-zero sparse columns leaves the other coefficients unchanged.",
 ["inputs", "configurations"], "all data sets and transformations, all estimators",
 "Metamorphic relations are not tested anywhere.",
 SOLV + [SP, BP, SD, MD] + DS, [("whole fitting pipeline", EST)],
 ["coefficients of transformed problems"])
prop("C21", "The linear solver solves or reports singularity",
 "For every square system, the Gaussian-elimination helper returns the solution (residual at rounding level relative to the conditioning) when the matrix is non-singular, also when pivots are zero or rows need exchanging, and reports an error rather than a solution when elimination meets an exactly singular matrix of small integers. "
 "It never modifies its inputs and never panics for sizes of at least one.",
 ["inputs"], "all matrices of size 1 to 8, permuted, with zero leading minors, singular, badly scaled",
 "Three fixed matrices are tested, none with a zero pivot.",
 ["src/utils/mod.rs"], [("solve_lin_sys", "src/utils/mod.rs")], ["solve_lin_sys"])
prop("C22", "Single precision gives the same guarantees",
 "Every estimator, penalty, loss and helper instantiated with single-precision numbers returns the double-precision result up to single-precision accuracy, converges to single-precision optimality, and validates hyperparameters identically. ",
 ["inputs", "configurations"], "all estimators and primitives with f32 data",
 "The test-suite only instantiates double precision.",
 ["src/lib.rs"] + SOLV[:2] + [SP, BP, SD, MD, EST], [("Float trait and casts", "src/lib.rs")], ["fit and primitive results in f32"])
prop("C23", "The Python estimators expose the same fits",
 "For every dense or scipy-sparse input in any memory layout and numeric type, the Python estimators return coefficients of the documented shape that satisfy the same optimality conditions and equal those of the Rust estimator with the same hyperparameters; prediction is the product with the fitted coefficients and raises before fitting. "
 "Invalid hyperparameters, data that are not finite and designs and targets with different numbers of samples raise ValueError (never a crash), each valid one is accepted and reaches the solver, and inputs are not modified.",
 ["inputs", "configurations", "histories"], "all six Python estimators, layouts (C, F, strided, CSC, CSR), dtypes, hyperparameter combinations, refits and predictions",
 "Eight Python tests compare one fit per estimator with scikit-learn; predict, validation and other layouts are untested.",
 ["python/sparseglm/estimators.py", "python/src/lasso.rs", "python/src/elastic_net.rs", "python/src/mcp.rs", "python/src/mtl_lasso.rs", "python/src/multi_task_elastic_net.rs", "python/src/block_mcp.rs"],
 [("fit / predict / validation", "python/sparseglm/estimators.py"), ("wrappers", "python/src/*.rs")], ["coef_, predict, exceptions"],
 [("coef_", "fitted coefficients, None before fit", "python/sparseglm/estimators.py")])
prop("C24", "Data sets and targets report faithful shapes and views",
 "For every dense or sparse design matrix and every one- or two-dimensional target (owned, view or reference), the data set reports the exact numbers of samples, features and tasks, the stored entries, and the storage kind; a one-dimensional target viewed as a matrix has one column with the same entries, and casting back to a vector succeeds for one column and fails for several. "
 "Rank-one updates and products of the model fit agree with exact arithmetic for both storage kinds.",
 ["inputs"], "all shapes and layouts of designs and targets, all columns, working sets and coefficient arrays",
 "Two constructor tests exist; the products used by the solver are only exercised indirectly.",
 DS + ["src/datasets/impl_targets.rs", "src/datasets/impl_datasets.rs"], [("AsMultiTargets / AsSingleTargets", "src/datasets/impl_targets.rs"), ("DesignMatrix", DS[0])],
 ["DatasetBase, AsMultiTargets, AsSingleTargets, DesignMatrix methods"], [XW])

prop("C25", "User-supplied losses, penalties, designs and targets are solved as such",
 "A loss, penalty, design matrix or target type supplied by the user through the public traits is treated like a built-in one: with enough budget the solver returns a point satisfying the first-order optimality conditions of that loss and penalty, its objective never increases over budgets (an infinite penalty value excludes a point), each pass applies the supplied proximal operator at the supplied curvature bound, and the violation the penalty defines decides working sets and stopping. "
 "The supplied objects are initialised before use and always called with shapes that match the data set.",
 ["inputs", "configurations", "histories"], "losses (Huber with a loose curvature bound), penalties (non-negative, ridge, counting, entry-wise) single- and multi-task, user-defined designs and targets, crossed with the built-in ones, solver settings and budgets",
 "The README promises that any sparse GLM is solved from its loss and penalty; no test supplies one.",
 SOLV + ["src/datafits/single_task/mod.rs", "src/datafits/multi_task/mod.rs", SP, BP] + DS, [("Datafit and Penalty traits", "src/datafits/single_task/mod.rs"), ("solvers generic in them", SOLV[0])],
 ["coefficients at every budget"])

prop("C26", "The Python helpers generate and measure what was asked for",
 "The data generator returns a design, targets and coefficients of the documented shapes such that: given coefficients (also as the documented one-dimensional array) are used unchanged, otherwise exactly the integer part of density times n_features rows are non-zero, all of their entries non-zero; the targets are exactly the product without noise, or at exactly the requested signal-to-noise ratio; columns are standardized with the announced correlation between neighbours; the noise does not depend on the design, samples or tasks; the same seed (integer or generator) gives the same numbers and another seed others, the direction of the noise included. Correlations outside [0, 1) and densities outside (0, 1] raise ValueError. "
 "The maximal-regularization helper equals max_j ||X_j^T Y|| / n for dense and scipy-sparse designs and vector or matrix targets, and the sum-of-squares helper is exact in any memory layout; none modifies its inputs.",
 ["inputs", "configurations"], "all shapes, task numbers, densities, correlations, signal-to-noise ratios, supplied coefficients and seeds; all layouts of designs and targets",
 "No test of the repository calls the generator with supplied coefficients, with several signal-to-noise ratios, or looks at what it returns.",
 ["python/sparseglm/utils.py"], [("make_correlated_data, compute_alpha_max, sum_squared", "python/sparseglm/utils.py")], ["return values, exceptions"])

prop("C27", "The public test helpers compare and generate faithfully",
 "assert_array_all_close and assert_array2d_all_close panic exactly when the shapes differ or some pair of entries differs by more than the given precision (a NaN differs from everything, an infinity from every finite number), wherever the entry lies and in any memory layout, single or double precision. "
 "fill_random_vector returns the requested number of standard normal numbers, always the beginning of the same sequence; the data generators return arrays of the requested shapes whose targets are the product of the design with coefficients plus noise, all three taken from the beginning of that sequence (the design column by column).",
 ["inputs"], "all shapes, entries, positions, layouts and precisions; all numbers of samples, features and tasks",
 "The helpers are what the tests themselves rely on; none of them is tested, and a comparison that accepts too much fails no test.",
 ["src/utils/mod.rs"], [("test_helpers", "src/utils/mod.rs")], ["panics, returned arrays"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
