T_ENUM = "exhaustive bounded enumeration of executions of the real code against an independent reference model"
T_HIST = "explicit-state exploration of all operation sequences up to a depth on the real objects, compared with a reference model"
NOTE = "bounded: every point of the stated finite domain is executed on the real code, nothing is sampled; dimensions and alphabets beyond the bounds are not covered"

prop("C01", "Proximal maps of elementary penalties return the exact minimiser",
     "For every l1, sup, l2, positive-part or max-type penalty in Lagrange or bound form, every elementary cone and its polar, simplex, maximum, and linear subspace constraint, the proximal map returns a feasible minimiser of the quadratic plus the penalty, whatever offset and own quadratic the penalty carries. "
     "The answer does not depend on what was computed before with the same object and the caller's arguments are left unchanged.",
     ["inputs", "configurations", "histories"],
     "all inputs x, step constants, centers, linear terms, multipliers/bounds (including 0), offsets and own quadratics; all sequences of calls on one object",
     "the tests draw a few random centers with generic values and two forms; ties, zeros, boundary points, zero multipliers or bounds, and combinations of offset with own quadratic are not reached",
     ["regreg/atoms/seminorms.py", "regreg/atoms/cones.py", "regreg/atoms/simplex.py", "regreg/atoms/linear_constraints.py", "regreg/atoms/projl1_cython.pyx", "regreg/atoms/piecewise_linear.pyx"],
     [("lagrange_prox / bound_prox", "regreg/atoms/seminorms.py"), ("cone_prox", "regreg/atoms/cones.py"), ("proximal with recentering", "regreg/atoms/__init__.py, regreg/identity_quadratic.py")],
     ["proximal", "lagrange_prox", "bound_prox", "cone_prox"], NOTE, T_ENUM + " (subdifferential certificate per point)")

prop("C02", "Proximal maps of weighted, sorted, group and mixed penalties are exact",
     "For every weighted l1 or sup penalty (weights may be zero or infinite), sorted-l1 penalty and its dual, group and sparse group penalty with its dual and epigraph cones, and mixed penalty and its dual, the proximal map returns a feasible minimiser of the quadratic plus the penalty, whatever offset and own quadratic it carries. "
     "Group labels need not be contiguous or ordered, group weights may be zero, and repeated use of one object gives the same answers.",
     ["inputs", "configurations", "histories"],
     "all inputs, weights, group assignments, penalty structures, multipliers/bounds, offsets and own quadratics; all call sequences on one object",
     "the tests use a handful of fixed group layouts with random generic inputs; ties, empty buffers, zero or infinite weights, interleaved labels and repeated calls that share scratch buffers are not covered",
     ["regreg/atoms/weighted_atoms.py", "regreg/atoms/slope.py", "regreg/atoms/group_lasso.py", "regreg/atoms/sparse_group_lasso.py", "regreg/atoms/mixed_lasso.py", "regreg/atoms/mixed_lasso_cython.pyx", "regreg/atoms/_isotonic_py.py"],
     [("lagrange_prox / bound_prox", "regreg/atoms/*.py"), ("scratch buffers flushed per call", "regreg/atoms/group_lasso.py, mixed_lasso.py"), ("pool adjacent violators", "regreg/atoms/slope.py")],
     ["proximal", "lagrange_prox", "bound_prox", "cone_prox"], NOTE, T_ENUM + " (subdifferential certificate per point)")

prop("C03", "Proximal maps of matrix, block and spectral penalties are exact",
     "For every row-wise block norm, sparse block norm, nuclear and operator norm and their epigraph cones, and every block penalty built from an elementary penalty, the proximal map returns a feasible minimiser of the quadratic plus the penalty, whatever offset and own quadratic it carries. "
     "Repeated use of one object gives the same answers and arguments are left unchanged.",
     ["inputs", "configurations", "histories"],
     "all matrices of all shapes, multipliers/bounds, weights, offsets and own quadratics; all call sequences on one object",
     "the tests use random dense full-rank matrices of one or two shapes; zero rows, rank deficiency, repeated singular values and already feasible points are not reached",
     ["regreg/atoms/block_norms.py", "regreg/atoms/sparse_group_block.py", "regreg/atoms/svd_norms.py"],
     [("lagrange_prox / bound_prox on rows or singular values", "regreg/atoms/block_norms.py, svd_norms.py"), ("joint bound projection over rows", "regreg/atoms/sparse_group_block.py")],
     ["proximal", "lagrange_prox", "bound_prox", "cone_prox"], NOTE, T_ENUM + " (subdifferential certificate per point)")

prop("C04", "Penalty values and feasibility verdicts agree with the definition",
     "Evaluating any penalty or constraint gives the value of its mathematical definition at the point: multiplier times norm, plus the penalty's own quadratic, shifted by its offset, and infinite exactly when the point violates its constraint beyond the documented relative tolerance. "
     "The norm and constraint evaluators give the same verdict whichever form the penalty is in, and arguments are left unchanged.",
     ["inputs", "configurations"],
     "all points (inside, on and outside the boundary), multipliers, bounds, weights, offsets, own quadratics, for every penalty in the library",
     "the tests rarely evaluate values with feasibility checking at all and never at boundary, zero or infeasible points of the weighted, mixed, spectral and block families",
     ["regreg/atoms/seminorms.py", "regreg/atoms/cones.py", "regreg/atoms/weighted_atoms.py", "regreg/atoms/group_lasso.py", "regreg/atoms/mixed_lasso.py", "regreg/atoms/svd_norms.py", "regreg/atoms/block_norms.py", "regreg/problems/composite.py"],
     [("seminorm / constraint", "regreg/atoms/*.py"), ("nonsmooth_objective with offset and quadratic", "regreg/atoms/seminorms.py, regreg/atoms/cones.py")],
     ["nonsmooth_objective", "objective", "seminorm", "constraint"], NOTE, T_ENUM)

prop("C05", "Convex conjugates and duals agree with the definition",
     "The conjugate of any penalty, with any offset and linear or strongly convex quadratic part, takes at every point the value of the Fenchel conjugate (infinite outside its domain), its own proximal map is exact, and conjugating twice gives back the original function. "
     "If the penalty has a strongly convex quadratic part, the conjugate is smooth and its gradient is the maximiser that defines it.",
     ["inputs", "configurations"],
     "all penalties, forms, multipliers/bounds, offsets, linear terms, constants, own quadratics and all points inside, on and outside the conjugate's domain",
     "the tests only compare conjugate pairs through proximal identities at random points; values, constants, offsets combined with linear terms, biconjugates and domains are never compared",
     ["regreg/atoms/__init__.py", "regreg/atoms/seminorms.py", "regreg/atoms/cones.py", "regreg/atoms/group_lasso.py", "regreg/atoms/block_norms.py", "regreg/atoms/svd_norms.py", "regreg/problems/composite.py"],
     [("conjugate pair tables and offset/linear exchange", "regreg/atoms/__init__.py"), ("smooth_conjugate", "regreg/problems/composite.py")],
     ["conjugate", "dual", "smooth_objective of a conjugate"], NOTE, T_ENUM)

prop("C06", "Smoothed penalties have the defined value, gradient and Lipschitz constant",
     "Smoothing any penalty or constraint with an identity quadratic gives the infimal convolution that defines it: the value at every point is the defining minimum, the gradient is the unique maximiser, all evaluation modes agree, and the gradient is Lipschitz with the constant the object reports. "
     "A smoothed object leaves the penalty and the smoothing quadratic unchanged, a zero smoothing quadratic is refused, and taking the conjugate of a smooth conjugate that carries its own quadratic gives the function it defines.",
     ["inputs", "configurations", "histories"],
     "all penalties with all offsets and own quadratics, all smoothing quadratics (coefficient, center, linear term, constant), all points and pairs of points",
     "the tests smooth only l1 norms around zero and look at solver output; values, constants, centers, Lipschitz bounds and returned arrays of the smoothed object are never compared with the definition",
     ["regreg/problems/composite.py", "regreg/atoms/__init__.py", "regreg/atoms/seminorms.py", "regreg/identity_quadratic.py"],
     [("smoothed / smooth_conjugate", "regreg/problems/composite.py, regreg/atoms/__init__.py"), ("lipschitz of the smoothed object", "regreg/problems/composite.py")],
     ["smoothed", "smooth_objective", "lipschitz", "conjugate"], NOTE, T_ENUM + " (optimality certificate per point, Lipschitz inequality on all pairs)")

prop("C07", "Penalty objects follow their abstract state through every history of operations",
     "After any sequence of setting the multiplier or bound, group weights, the offset (including zero and none) or the quadratic, copying, taking conjugates and smoothings, and changing arrays that the object returned earlier, a penalty behaves as a freshly built one with the current multiplier or bound, offset and quadratic. "
     "Copies and duals are independent of the original, and setting the multiplier of a constraint or the bound of a penalty is refused and changes nothing.",
     ["histories", "configurations"],
     "all sequences of operations on one object and its copies and duals, for every penalty and form",
     "the tests build a penalty, use it once and throw it away; setters, copies made after a setter, stale duals and arrays shared between results are never exercised in sequence",
     ["regreg/atoms/__init__.py", "regreg/atoms/seminorms.py", "regreg/atoms/group_lasso.py", "regreg/atoms/mixed_lasso.py", "regreg/atoms/block_norms.py", "regreg/atoms/weighted_atoms.py", "regreg/problems/composite.py"],
     [("lagrange / bound / offset / quadratic setters", "regreg/atoms/seminorms.py, regreg/problems/composite.py"), ("__copy__", "regreg/atoms/*.py"), ("scratch buffers", "regreg/atoms/group_lasso.py, mixed_lasso.py")],
     ["proximal", "nonsmooth_objective", "conjugate", "lagrange", "bound", "offset"], NOTE, T_HIST)

prop("C08", "Penalties composed with affine maps have the defined value and dual",
     "A penalty composed with a linear or affine map, built by any route (linear, affine, shift or the composition class, with any matrix, sparse matrix or transform), evaluates to the penalty of the mapped point including both offsets. "
     "Its dual pair is the linear part and the Fenchel conjugate of the shifted penalty, smoothing it gives the smoothed penalty of the map, and the original penalty and arguments are left unchanged.",
     ["inputs", "configurations"],
     "all penalties and forms, all transforms with matching output (dense, sparse, diagonal, selections, compositions), all combinations of penalty offset and transform offset, all points",
     "the tests compose l1 type penalties with one random matrix and look at solver output; offsets on either side, other transforms, duals and reuse of the original penalty are not compared",
     ["regreg/atoms/__init__.py", "regreg/atoms/seminorms.py", "regreg/atoms/cones.py", "regreg/affine/__init__.py"],
     [("affine_atom", "regreg/atoms/__init__.py"), ("affine_cone", "regreg/atoms/cones.py"), ("linear / affine / shift constructors", "regreg/atoms/__init__.py")],
     ["nonsmooth_objective", "dual", "smoothed", "linear", "affine", "shift"], NOTE, T_ENUM)

prop("C09", "Linear and affine maps and their combinations act as one matrix and offset",
     "Every transform, and every transform built from others (adjoint, composition, stacking, product, sum, scaling, selection, intercept, residual, reshaping), maps each input as the matrix and offset its definition gives, with matching reported shapes and offset. "
     "The adjoint is the exact transpose of the linear part, the dense form is that matrix, and no call changes its argument, the caller's arrays or an earlier result.",
     ["inputs", "configurations", "histories"],
     "all elementary transforms, all nestings of combinators, vector and matrix inputs, integer and float inputs, dense and sparse operators with dense or sparse offsets",
     "the tests multiply a few random vectors through single combinators; offsets through compositions, nested combinators, matrix shaped inputs, reported offsets and shared buffers are not compared",
     ["regreg/affine/__init__.py"],
     [("affine_transform and combinators", "regreg/affine/__init__.py"), ("todense", "regreg/affine/__init__.py")],
     ["linear_map", "affine_map", "adjoint_map", "affine_offset", "todense"], NOTE, T_ENUM + " (complete bases)")

prop("C10", "Structured maps equal the matrices their definitions give",
     "Column normalisation (with any choice of centring, scaling, intercept and target scale, for dense and sparse matrices), divided differences and their inverse, multiscale interval averages, image differences, blockwise maps and factored matrices act as the matrix their definition gives, as do their adjoints. "
     "The statistics and proximal maps built on them (multiscale statistic, factored nuclear and operator norms, truncated factorisations, largest singular value) are correct, and the caller's data are left unchanged.",
     ["inputs", "configurations"],
     "all small design matrices in every storage format, knot sequences in every order with repeats, interval sets, image shapes, block layouts and matrices of every rank",
     "the tests use one random dense or csr matrix, sorted unit-spaced knots and one interval family; sparse formats without centring, unsorted or repeated knots, several columns, given noise levels, step constants and wide or tiny matrices are not covered",
     ["regreg/affine/__init__.py", "regreg/affine/fused_lasso.py", "regreg/affine/multiscale.py", "regreg/affine/image2d.py", "regreg/affine/block_maps.py", "regreg/affine/factored_matrix.py"],
     [("normalize", "regreg/affine/__init__.py"), ("trend_filter, trend_filter_inverse", "regreg/affine/fused_lasso.py"), ("multiscale, SMUCE_stat", "regreg/affine/multiscale.py"),
      ("image2d_differences", "regreg/affine/image2d.py"), ("factored norms", "regreg/affine/factored_matrix.py")],
     ["normalize", "linear_map", "adjoint_map", "proximal of factored norms"], NOTE, T_ENUM + " (complete bases)")

prop("C11", "Quadratic terms obey their algebra",
     "Adding, copying, collapsing, recentring, conjugating and restricting quadratic terms of the form L/2 |x - mu|^2 + <eta, x> + gamma, with any field absent, zero, scalar, float or integer, gives objects whose value, gradient and minimiser are those of the exact polynomial, without changing the operands. "
     "Minimising a penalty plus such a quadratic returns a minimiser together with the optimal value of the total objective.",
     ["inputs", "configurations", "histories"],
     "all combinations of field forms and all sequences of operations on the resulting objects",
     "the tests check sums and collapse for float arrays only; absent or integer fields, constants after recentring, conjugates of linear functions and chains of operations are not covered",
     ["regreg/identity_quadratic.py", "regreg/problems/composite.py"],
     [("identity_quadratic", "regreg/identity_quadratic.py"), ("proximal_optimum, nonsmooth.solve", "regreg/problems/composite.py")],
     ["objective", "collapsed", "recenter", "conjugate", "+", "proximal_optimum", "solve"], NOTE, T_HIST)

prop("C12", "Regression losses equal their likelihoods in value, gradient and curvature",
     "For every family (Gaussian, logistic, probit, complementary log-log, Poisson, Huber, Huberised hinge), the value and gradient at any linear predictor, the extremes included, are those of the weighted, scaled loss it defines, with trials, offsets, weights at construction and weights per call all taken into account, and every evaluation mode agrees. "
     "The second derivative (expected information for probit and complementary log-log), the mean function, the deviance constant and copies are correct, regression on a design is the same loss at X(beta - offset), and neither weights nor design nor arguments are modified.",
     ["inputs", "configurations"],
     "all responses and trials, all linear predictors (extreme ones included), all combinations of scale, offset and both kinds of weights, all design forms and coefficient vectors",
     "the tests evaluate a few losses at moderate random predictors with unit weights; tails, offsets in Hessians, weights that are integers or given twice, sparse designs, trials, deviance constants and copies are not compared with the likelihood",
     ["regreg/smooth/glm.py", "regreg/smooth/binary.py"],
     [("glm", "regreg/smooth/glm.py"), ("gaussian, poisson, huber saturated losses", "regreg/smooth/glm.py"), ("logistic, probit, cloglog, huber_svm saturated losses", "regreg/smooth/binary.py")],
     ["smooth_objective", "gradient", "hessian", "mean_function", "objective", "linear_predictor"], NOTE, T_ENUM)

prop("C13", "The Cox loss is the partial likelihood of its risk sets, with ties and weights",
     "For every arrangement of event times with any ties, any censoring pattern and any nonnegative case weights (zeros included, at construction, per call or both), the Cox loss, its gradient and its Hessian-vector product equal those of the weighted Breslow partial likelihood computed from the risk sets, multiplied by the scale and evaluated after the offset. "
     "The same holds through a design matrix, results stay valid after later evaluations, and arguments are not modified.",
     ["inputs", "configurations", "histories"],
     "all weak orderings of the event times, all censoring patterns, all weight vectors over a grid with zero, all linear predictors over a grid",
     "the tests evaluate one random data set without ties, weights or offset; ties between failures and censored cases, risk sets without weight, the scale of the Hessian and buffers shared between calls are not covered",
     ["regreg/smooth/cox.py", "regreg/smooth/cox_utils.pyx", "regreg/smooth/cox_fns.c", "regreg/smooth/glm.py"],
     [("cox_loglike", "regreg/smooth/cox.py"), ("risk set accumulation", "regreg/smooth/cox_fns.c"), ("glm.cox, glm.hessian", "regreg/smooth/glm.py")],
     ["smooth_objective", "hessian_mult", "hessian"], NOTE, T_ENUM)

prop("C14", "Multinomial, stacked and multiresponse losses equal the sum of their parts",
     "Multinomial losses in both parametrisations equal the multinomial log-likelihood at every matrix of linear predictors (extreme ones included) with scale, offset and weights of both kinds, and stacked losses (one after another or side by side, built directly or by their class methods) equal the sum of the losses of their responses. "
     "Multiresponse regression is the same loss at X(B - offset) for every design form, all evaluation modes agree, returned gradients are not overwritten, and invalid weights are refused.",
     ["inputs", "configurations", "histories"],
     "all count tables and predictors over a grid, all pairs of responses of every family, all combinations of scale, offset and weights, all design forms and coefficient matrices",
     "the tests check the gradient at zero for Gaussian stacks and multinomial losses with unit weights; other families, class methods, weights, offsets, large predictors and repeated evaluation are not covered",
     ["regreg/smooth/mglm.py", "regreg/smooth/glm.py"],
     [("multinomial_loglike, multinomial_baseline_loglike", "regreg/smooth/mglm.py"), ("stacked_common_loglike, mglm", "regreg/smooth/mglm.py"), ("stacked_loglike", "regreg/smooth/glm.py")],
     ["smooth_objective", "multinomial", "stacked", "class methods of stacked losses"], NOTE, T_ENUM)

prop("C15", "Smooth functions compose, add, conjugate and minimise as the functions denoted",
     "Quadratic losses in every form, smooth functions composed with linear or affine maps by any route, shifted ones, weighted sums (nested sums included) and the Huberised hinge evaluate, in every mode, to the function they denote with its scale, offset and own quadratic, without changing their parts; initial coefficients are kept. "
     "The conjugate of a quadratic loss is its Fenchel conjugate, Cholesky based maps are the inverse, and minimising a smooth function with an additional quadratic returns the minimiser and the total optimal value and leaves the function unchanged.",
     ["inputs", "configurations", "histories"],
     "all base functions, scales, offsets, quadratics, transforms and construction routes, all sums of up to three functions, all sequences of solves on one object",
     "the tests look at a handful of random compositions; sums with quadratics, weights, offsets, nested sums, conjugates of non-identity quadratics, banded factorisations, initial values and repeated solves are not compared with a closed form",
     ["regreg/smooth/__init__.py", "regreg/smooth/quadratic.py", "regreg/smooth/losses.py", "regreg/problems/composite.py"],
     [("smooth_atom, affine_smooth, sum", "regreg/smooth/__init__.py"), ("quadratic_loss, cholesky", "regreg/smooth/quadratic.py"), ("huberized_svm", "regreg/smooth/losses.py"), ("smooth.solve, smooth.proximal", "regreg/problems/composite.py")],
     ["smooth_objective", "objective", "linear", "affine", "shift", "sum", "get_conjugate", "solve"], NOTE, T_ENUM)

prop("C16", "Loss objects keep their state straight through any sequence of operations",
     "After any sequence of replacing the data, replacing or editing the case weights, setting the scale or offset, copying, subsampling by index or mask and evaluating, every loss and every copy or subsample made along the way evaluates to the loss of its own current data, weights, scale and offset. "
     "No operation on one object changes another, gradients returned earlier keep their values, and arrays given by the caller are not modified.",
     ["histories", "configurations"],
     "all sequences of operations up to the bounded depth, addressed to every live object, for every kind of loss",
     "the tests build each loss once, evaluate it and at most copy it; replaced data, subsamples of subsamples, copies of scaled losses and interleaved operations on originals and copies are never compared with a reference",
     ["regreg/smooth/glm.py", "regreg/smooth/binary.py", "regreg/smooth/mglm.py", "regreg/smooth/cox.py"],
     [("glm.set_data, glm.subsample, glm.__copy__", "regreg/smooth/glm.py"), ("mglm, stacked_common_loglike, multinomial_loglike", "regreg/smooth/mglm.py"), ("cox_loglike", "regreg/smooth/cox.py")],
     ["data", "case_weights", "coef", "offset", "copy", "subsample", "smooth_objective"], NOTE, T_HIST)

prop("C17", "Solving a simple problem reaches its minimum under every solver option",
     "For a smooth loss plus one penalty, solve returns the minimiser of loss, penalty, own quadratics and the quadratic given to solve, whatever the penalty, the starting point, the step size, momentum, restarts, the stopping rule and the number of earlier solves; gengrad reaches the same point. "
     "Iterates follow the documented (accelerated) proximal gradient recursion, accepted steps satisfy the majorisation they are tested for, and the returned objective history is that of the iterates and non-increasing where restarts promise it. "
     "return_optimum gives the objective at the returned point, solve leaves the quadratic of the problem as it was, also when it fails, and warm starts do not change the answer; a solver object used again after the loss, penalty or quadratics were changed minimises the problem as it then is.",
     ["configurations", "histories"],
     "all combinations of loss, penalty, quadratic and solver options in bounds, plus all sequences of two solves",
     "the tests compare a few problems with each other by value; options such as FISTA=False, restart, coef_stop or attempt_decrease, and a quadratic passed to solve, are never compared with an independent optimality certificate",
     ["regreg/algorithms.py", "regreg/problems/simple.py", "regreg/problems/composite.py"],
     [("FISTA.fit, FISTA.backtrack, FISTA.update_working_coefs", "regreg/algorithms.py"), ("simple_problem.solve, gengrad", "regreg/problems/simple.py"), ("composite.proximal_step", "regreg/problems/composite.py")],
     ["simple_problem", "solve", "FISTA", "gengrad"], NOTE, T_HIST)

prop("C18", "Separable penalties are the sum of their blocks with the rest free",
     "A separable penalty built from penalties of disjoint groups (slices, index lists or masks, in any order, of vectors or arrays) has as value, proximal map and conjugate those of the sum of its blocks on their groups; coordinates outside all groups are unpenalised, quadratics and offsets of blocks and of the whole are included, and overlapping groups are reported. All of this holds for the current parameters, offsets and quadratics after any sequence of changes. "
     "Problems with a smooth loss and a separable penalty are minimised over all coordinates together.",
     ["configurations", "histories"],
     "all layouts of disjoint groups, all block kinds and all quadratics in bounds, and all sequences of changes of a block or the whole",
     "the tests use a few layouts without quadratics, gaps, orders or conjugates",
     ["regreg/problems/separable.py"],
     [("separable.nonsmooth_objective, separable.proximal, separable.conjugate", "regreg/problems/separable.py"), ("separable_problem", "regreg/problems/separable.py"), ("has_overlap", "regreg/problems/separable.py")],
     ["separable", "separable_problem", "proximal", "conjugate"], NOTE, T_HIST)

prop("C19", "Composite problems have the same solution with every solver",
     "A smooth loss plus any number of penalties of affine images of the coefficients is solved by the container, the dual problem, ADMM, NESTA and TFOCS with the same minimiser, including own quadratics of losses, container and the call and non-square, sparse, sliced or shifted maps; the proximal map of a container is that of the sum of its penalties and quadratics, also when these are changed between solves. "
     "Reported optimal values are the optimum of the problem (for the dual problem, of the dual), and no solver changes its arguments.",
     ["configurations", "histories"],
     "all penalties and linear maps, alone and in pairs, with and without shift, in bounds, for every solver, and all sequences of changes of a container between its solves",
     "the tests run each solver on one or two random problems without quadratics and mostly with identity or square maps",
     ["regreg/problems/container.py", "regreg/problems/dual_problem.py", "regreg/problems/admm.py", "regreg/problems/simple.py"],
     [("container.solve, container.proximal", "regreg/problems/container.py"), ("dual_problem.fromprimal, stacked_dual", "regreg/problems/dual_problem.py"), ("admm_problem.solve", "regreg/problems/admm.py"), ("nesta, tfocs", "regreg/problems/simple.py")],
     ["container", "dual_problem", "admm_problem", "nesta", "tfocs"], NOTE, T_ENUM + "; all operation sequences on containers up to the depth")

prop("C20", "Every point of a regularisation path solves its own problem",
     "For LASSO, group LASSO, sparse group LASSO and sparse group block paths of every loss (with case weights, offsets and any scale), with feature or group weights (0 included), mixtures and elastic nets, the solutions returned by strong_rules, warm_start and basil (with any step sizes) satisfy, at each Lagrange value, the optimality conditions of the whole problem on all features, up to the documented 1% for inactive ones; the default sequence starts at the smallest value with the null solution. "
     "Fitting and subsampling do not change the path object for later fits, nor the data, sequence and initial values given.",
     ["configurations", "histories"],
     "all combinations of loss, penalty, elastic net, design and fitter in bounds and all sequences of fits and subsamples on one path",
     "the tests compare fitters with each other on random problems, which cannot see an error all fitters share, mostly with unit weights, equal groups and no elastic net",
     ["regreg/paths/__init__.py", "regreg/paths/lasso.py", "regreg/paths/group_lasso.py", "regreg/paths/sparse_group_lasso.py", "regreg/paths/sparse_group_block.py", "regreg/paths/basil.py"],
     [("strong_rules, warm_start, default_lagrange_sequence", "regreg/paths/__init__.py"), ("lasso_path", "regreg/paths/lasso.py"), ("group_lasso_path", "regreg/paths/group_lasso.py"), ("sparse_group_lasso_path", "regreg/paths/sparse_group_lasso.py"), ("sparse_group_common_path, sparse_group_block_path", "regreg/paths/sparse_group_block.py"), ("basil", "regreg/paths/basil.py")],
     ["lasso", "group_lasso", "sparse_group_lasso", "sparse_group_block", "strong_rules", "warm_start", "basil", "subsample"], NOTE, T_HIST)

prop("C21", "scikit-learn estimators solve and report what they document",
     "Every estimator (Gaussian, Huber, Huber SVM, logistic, probit, cloglog, Cox, multinomial; also their Lagrange form variants) fitted with any penalty form, case weights, offset, numbers of trials, scale, elastic net, own quadratic and starting point has coefficients that minimise the documented penalised loss. "
     "Predictions, class labels, probabilities and every score on any test set, with or without sample weights and down to a single row, are those of the model's linear predictor and the held-out responses. "
     "Fitting, refitting, cloning and changing parameters in any order leave the data and the caller's objects unchanged and never let one fit affect another.",
     ["inputs", "configurations", "histories"],
     "all combinations of estimator, penalty and options in bounds, all test sets, all sequences of fit, refit, clone and set_params",
     "the tests run the estimators through grid search on random data and only check that nothing fails; no coefficient, probability or score is compared with anything",
     ["regreg/sklearn/base.py", "regreg/sklearn/gaussian.py", "regreg/sklearn/logistic.py", "regreg/sklearn/probit.py", "regreg/sklearn/cloglog.py", "regreg/sklearn/cox.py", "regreg/sklearn/huber.py", "regreg/sklearn/huber_svm.py", "regreg/sklearn/multinomial.py"],
     [("fit, predict, score", "regreg/sklearn/base.py"), ("predict_proba and scorers", "regreg/sklearn/*.py")],
     ["fit", "predict", "predict_proba", "score", "set_params"], NOTE, T_HIST)

prop("C22", "Cross-validation of paths scores held-out cases under models of the others",
     "Whatever assignment of the cases to folds the shuffle produces, the model of a fold at each Lagrange value solves the path's problem on the training cases of that fold alone, and the returned means and spreads are those of the held-out scores at each Lagrange value. "
     "The path object, its data and the other folds are not changed, so folds may run in any order or concurrently.",
     ["inputs", "configurations", "schedules"],
     "all assignments of cases to folds, losses, penalties, fitters and scores in bounds, and all interleavings of folds on threads up to the preemption bound",
     "the only test runs cross-validation once on a random shuffle and compares nothing; leakage of held-out cases or state shared between folds changes no shape and raises nothing",
     ["regreg/paths/cross_validate.py", "regreg/paths/__init__.py", "regreg/paths/lasso.py", "regreg/paths/group_lasso.py", "regreg/paths/sparse_group_lasso.py", "regreg/paths/sparse_group_block.py"],
     [("cross_validate, cross_validate_alt", "regreg/paths/cross_validate.py"), ("subsample, strong_rules, warm_start", "regreg/paths/__init__.py")],
     ["cross_validate", "subsample", "strong_rules", "warm_start"], NOTE,
     "exhaustive enumeration of fold assignments and stateless exploration of all thread schedules up to a preemption bound under a controlled scheduler, on the real code")

prop("C23", "The proximal quasi-Newton solver minimises the configured objective",
     "For every smooth strongly convex loss, penalty, combination of quadratics, initial Hessian and starting point, solve returns the minimiser of the loss plus the penalty plus every quadratic, each Hessian update is the BFGS update of the last step, and no accepted step increases the objective. "
     "Repeated solves on one solver, with or without extra quadratics, do not affect each other, and the given Hessian, loss, penalty and quadratics are left unchanged.",
     ["inputs", "configurations", "histories"],
     "all combinations of loss, penalty, quadratics, initial Hessian and start in bounds and all sequences of solver operations",
     "the single test compares two solvers on one random problem without quadratics and with a fixed start",
     ["regreg/problems/newton.py"], [("quasi_newton", "regreg/problems/newton.py")], ["quasi_newton", "solve", "objective"], NOTE, T_HIST)

prop("C24", "Numerically computed conjugates are the Fenchel conjugates",
     "The conjugate of a loss or penalty computed by minimisation returns, for every own quadratic, conjugate quadratic and sign, the supremum of <u,x> minus the function and quadratics as value and the maximiser as gradient, consistently in every mode and order of evaluation. "
     "A failed evaluation leaves no trace, the function and the quadratic given are not changed, and results returned earlier stay as they were.",
     ["inputs", "configurations", "histories"],
     "all points of a grid, functions, parameters, quadratics, signs and orders of evaluation",
     "the test compares one conjugate with a second numerical solution at one random point",
     ["regreg/problems/conjugate.py", "regreg/problems/composite.py", "regreg/problems/simple.py"], [("conjugate.smooth_objective", "regreg/problems/conjugate.py")],
     ["conjugate", "smooth_objective"], NOTE, T_HIST)

prop("C25", "Decompositions, certificates, screening and equality of penalties are right",
     "The terms of a weighted, group or block penalty are its values on each coordinate, group or row and combine to the seminorm; membership in the unit ball of sparse group penalties is decided correctly; check_subgradient returns two equal numbers, those of its definition, at every point. "
     "The group screening rule keeps exactly the groups whose dual norm reaches its threshold and the group optimality check fails exactly at points away from optimality. "
     "Two penalties compare equal exactly when class, shape, weights, groups and parameter agree; copies and double conjugates are equal to the original.",
     ["inputs", "configurations"],
     "all points, penalties and parameters in bounds, all pairs of penalties",
     "the doctests show one vector with default weights; comparisons are only made between a penalty and its own double conjugate",
     ["regreg/atoms/weighted_atoms.py", "regreg/atoms/group_lasso.py", "regreg/atoms/sparse_group_lasso.py", "regreg/atoms/sparse_group_block.py", "regreg/atoms/seminorms.py", "regreg/atoms/cones.py", "regreg/atoms/block_norms.py", "regreg/atoms/slope.py"],
     [("terms, strong_set, check_KKT", "regreg/atoms/group_lasso.py"), ("terms", "regreg/atoms/weighted_atoms.py"), ("inside_set", "regreg/atoms/sparse_group_lasso.py"), ("__eq__, check_subgradient", "regreg/atoms/seminorms.py, regreg/atoms/cones.py")],
     ["terms", "inside_set", "check_subgradient", "strong_set", "check_KKT", "__eq__"], NOTE, T_ENUM)
