"""Write /verif/properties.jsonl (one property per line)."""
import json, os
S = 'src/reor/'
AA, GP, CR, MT = S+'archetypal_analysis.py', S+'gpnh_convex_coding.py', S+'gpnh_convex_coding_crom.py', S+'mtd_convex_coding.py'
FB, FK, FV = S+'fembv.py', S+'fembv_kmeans.py', S+'fembv_varx.py'
PW, KM, SP, FS, SPG, RM, VA = S+'pwvarx.py', S+'crom.py', S+'simplex_projection.py', S+'furthest_sum.py', S+'spg.py', S+'_random_matrix.py', S+'_validation.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))


prop('C01', 'Simplex projection returns the nearest point of the simplex',
     'Projecting a vector onto the probability simplex returns the unique closest point of the simplex in Euclidean distance (non-negative entries summing to one, and no closer point), whatever the length, scale, sign or ties of the input, and leaves the input unmodified. '
     'Row-wise and column-wise projection replace every row or column of the given matrix, in place and independently of the others, by its projection.',
     ['inputs'], 'all finite real vectors and matrices, including ties, one-element vectors, points already on the simplex, points projecting to a vertex, and non-contiguous views',
     'tests/test_simplex_projection.py projects a handful of fixed vectors; active sets of every size, ties and scales are unbounded.',
     [SP], [('sort-and-threshold projection', SP+':simplex_project_vector'), ('in-place row and column loops', SP+':simplex_project_rows')],
     ['simplex_project_vector', 'simplex_project_rows', 'simplex_project_columns'])

prop('C02', 'FurthestSum selects distinct, allowed, greedily furthest samples',
     'For a symmetric dissimilarity matrix, a start index, excluded samples and a number of refinement steps, FurthestSum returns the requested number of distinct, non-excluded indices; without refinement it begins with the start index and each further index has the largest total dissimilarity to those selected before it among all remaining allowed samples. '
     'Each refinement step drops the selected index whose turn it is (cycling through the positions in order) and puts in its position the allowed sample, possibly the dropped one, with the largest total dissimilarity to the others selected. '
     'Requests that cannot be satisfied (start index out of range or excluded, too few allowed samples, matrix not square) raise an error.',
     ['inputs', 'configurations'], 'all symmetric dissimilarity matrices, start indices, exclusion lists, numbers of components and refinement steps',
     'tests/test_furthest_sum.py checks a few random matrices for distinctness and two constructed geometries; greedy optimality of every selection and replacement is not checked.',
     [FS], [('running sums of dissimilarities in a candidate queue', FS+':_furthest_sum_impl'), ('request validation', FS+':furthest_sum')],
     ['furthest_sum'], [('q', 'candidates with their summed dissimilarity to the selected samples', FS)])

prop('C03', 'Factors returned by every fit satisfy their simplex constraints',
     'Whenever a fit or transform of archetypal analysis, convex coding, the MTD-regularised coding or the coding-based reduced order model returns, at convergence or at any iteration limit, from any kind of initialisation, all factors have their documented shapes and satisfy their constraints up to rounding: every row of the weights, every row of an archetypal dictionary, the order weights and every column of every transition matrix are non-negative and sum to one.',
     ['inputs', 'configurations', 'histories'], 'all data sets (degenerate, duplicated, constant, badly scaled), model options, seeds, iteration limits from 1 up, and custom starting points',
     'The tests run single updates on a few Gaussian matrices and check row sums of some results with default options.',
     [AA, GP, CR, MT, SP, RM], [('projection after each gradient step', AA+':_update_weights'), ('convex combination in the line search', GP+':_weights_line_search'), ('left-stochastic transitions', MT+':_update_parameters')],
     ['fit_transform return value', 'dictionary_', 'transform', 'order_weights', 'transition_matrices'])

prop('C04', 'The reported cost is the objective value of the returned factors',
     'After a fit, the reported cost equals, up to rounding, the documented objective recomputed from the data and the factors the model returns: squared reconstruction error in feature or kernel space for archetypal analysis; mean squared error plus the scaled pairwise dictionary penalty for convex coding and its reduced order model, plus additionally the scaled weighted-lag prediction penalty for MTD coding; affiliation-weighted distances for the FEM-BV models. '
     'A single component incurs no pairwise or lag penalty, and archetypal analysis of data gives the same result as kernel analysis of its Gram matrix (or of the matrix computed by a custom kernel function).',
     ['inputs', 'configurations', 'histories'], 'all data, penalties, numbers of components including one, lag sets, initialisations, iteration limits and refits',
     'Tests compare the internal cost with a formula at one random point per class; nothing compares the number a user reads with the factors the user gets after complete fits.',
     [AA, GP, CR, MT, FB], [('cost evaluation', AA+':_evaluate_cost'), ('cost evaluation', GP+':_evaluate_cost'), ('cost evaluation with lag penalty', MT+':_evaluate_cost'), ('distance weighted cost', FB+':_evaluate_cost')],
     ['cost_', 'dictionary_', 'fit_transform return value'])

prop('C05', 'Iterating never makes the objective worse, and never aborts a fit',
     'With default line search settings, each further iteration of archetypal analysis, convex coding, MTD coding or the FEM-BV models started from the same point leaves the objective no higher than before (beyond rounding, or solver accuracy for FEM-BV), starting with the objective of the initial guess itself; likewise for the lag-model residual of the reduced order model. '
     'Optimisation makes progress whenever the current point is clearly not stationary, and a fit to valid finite data never fails with a cost-increase error; only where the limited accuracy of the solver makes a FEM-BV update raise the cost by more than the tolerance, a fit that requires decreasing costs fails, and then always.',
     ['inputs', 'configurations', 'histories'], 'all data and starting points, and every prefix of the iteration history',
     'Tests repeat updates for a few random problems and assert the cost does not increase there; line-search backtracking and degenerate directions depend on the data.',
     [AA, GP, CR, MT, FB, SPG], [('sufficient-decrease line search', AA+':_dictionary_line_search'), ('monotonicity guard', GP+':_iterate'), ('alternating minimisation', FB+':_iterate')],
     ['cost_ of fits with increasing max_iterations'])

prop('C06', 'Fits stop at the documented point and report it',
     'A fit performs iterations until the first one whose change in cost is smaller in magnitude than the tolerance, or until the iteration limit, and never more; its result is that of the last iteration performed, and the reported iteration count is the number of iterations performed. '
     'With a positive tolerance, a warning about the iteration limit is issued when the limit was reached, and none when the fit converged before it.',
     ['inputs', 'configurations', 'histories'], 'all data, tolerances including zero, and iteration limits',
     'Tests only assert that the reported count is below the limit on two constructed problems.',
     [AA, GP, MT, FB], [('iteration loop and convergence test', GP+':_iterate'), ('iteration loop', AA+':_iterate'), ('iteration loop', MT+':_iterate'), ('iteration loop', FB+':_iterate')],
     ['n_iter_', 'cost_', 'warnings'])

prop('C07', 'Long optimisations reach stationary points of the objective',
     'Run with zero or tiny tolerance and a generous iteration limit, fitting an objective that has a minimiser reaches a point that no feasible first-order change improves noticeably: the Frank-Wolfe gap of the weights and dictionary of archetypal analysis, of the weights and the dictionary gradient of convex coding and MTD coding, and of the order weights and transition matrices, is negligible relative to the scale of the objective. '
     'When only the weights are optimised for a fixed dictionary (transform), the result attains the global minimum of that convex problem.',
     ['inputs', 'configurations'], 'all well-scaled data sets, penalties and starting points',
     'Tests check gradients by finite differences at one point and recover a few planted archetypes; a wrong term that cancels there, or a stalled step-length rule, is invisible.',
     [AA, GP, CR, MT, SPG], [('spectral projected gradient steps', AA+':_update_weights'), ('dictionary gradient steps', GP+':_update_dictionary'), ('parameter steps', MT+':_update_parameters')],
     ['final factors', 'transform'])

prop('C08', 'Transforming data keeps the fitted model and inverts linearly',
     'Transforming data with a fitted archetypal analysis, convex coding, MTD coding or reduced order model leaves the fitted dictionary and lag parameters exactly as fitted, returns one feasible weight row per sample of the transformed data, and attains for that data an objective no higher than that of its starting guess and, given enough iterations, close to the best possible for the fitted dictionary and parameters; the fit results reported by the model (cost, iteration count, number of components) are not changed by it. '
     'The inverse transform of any weight matrix is its product with the fitted dictionary.',
     ['inputs', 'histories', 'configurations'], 'all fitted models (any initialisation method, including custom), new data with other numbers of samples, and sequences of transforms',
     'No test transforms new data.',
     [AA, GP, CR, MT], [('transform with fixed dictionary', AA+':transform'), ('transform with fixed dictionary', GP+':transform'), ('transform with fixed dictionary and parameters', MT+':transform')],
     ['transform', 'inverse_transform', 'dictionary_', 'cost_'])

prop('C09', 'Forecasts iterate the fitted lag model from each sample history',
     'For a fitted MTD coding or coding-based reduced order model, predicting over horizon h > 0 gives for each sample the dictionary combination obtained by applying h times the recursion "next weights = sum over lags of order weight times transition matrix times the weights that many steps back" to the transformed weights up to and including that sample. '
     'Samples with fewer preceding samples than the largest lag requires give NaN and no other sample does; horizon zero gives the reconstruction of the data; forecasts never use later samples beyond their effect on the transformed weights.',
     ['inputs', 'histories', 'configurations'], 'all fitted models, lag sets (unsorted, with gaps), horizons shorter and longer than the largest lag, and data lengths',
     'predict is never called in the tests.',
     [CR, MT], [('rolling window recursion', CR+':predict'), ('rolling window recursion', MT+':predict')],
     ['predict', 'transform', 'inverse_transform'])

prop('C10', 'FEM-BV affiliations are optimal and respect the switching bound',
     'After fitting or transforming with a FEM-BV model, each row of the affiliations is a probability vector, and when a total-variation bound is set the summed absolute changes of each component over time stay within it (to solver accuracy). '
     'For the model distances at the returned parameters, no other affiliations satisfying the same constraints have a noticeably lower cost; without a bound each sample is assigned to a component of least distance.',
     ['inputs', 'configurations', 'histories'], 'all data, numbers of components, bounds from zero upwards or none, and iteration limits',
     'Tests check constraint matrices for a few sizes and single updates; optimality under binding bounds is only checked on tiny hand-solved cases.',
     [FB, FK, FV], [('linear program over affiliations and variation variables', FB+':_update_weights'), ('constraint assembly', FB+':_initialize_constraints')],
     ['fit_transform return value', 'transform', 'Theta', 'mu', 'A', 'B0'])

prop('C11', 'FEM-BV-k-means centroids are affiliation-weighted means',
     'The centroids of a FEM-BV-k-means model are, for each component, the mean of the data weighted by the affiliations they were fitted to, and a component without any affiliated samples keeps a finite centroid; with a single component the centroid is the data mean. '
     'Distances are squared Euclidean distances to the centroids, randomly initialised centroids are distinct samples of the data, and transforming new data uses the fitted centroids and leaves them unchanged.',
     ['inputs', 'configurations', 'histories'], 'all data including duplicates and outliers, custom starting centroids and affiliations, iteration limits, and transforms after fits',
     'Tests check a single update on random matrices; empty components, custom starts and transform are not exercised.',
     [FK, FB], [('weighted mean update', FK+':_update_parameters'), ('distance evaluation', FK+':_evaluate_distance_matrix'), ('random centroids', FK+':_initialize_fembv_kmeans_random')],
     ['Theta', 'Gamma', 'cost_'])

prop('C12', 'FEM-BV-VARX components are weighted least squares fits',
     'The intercept, autoregressive and external-factor coefficients of each FEM-BV-VARX component minimise the affiliation-weighted sum of squared one-step residuals for the affiliations they were fitted to, with lag 1 first and external factors entering at the same time step, also when components have different memory lengths (coefficients beyond the memory of a component being zero) and when no affiliations are given. '
     'Affiliations refer to the samples after the longest memory, results do not depend on factors given to earlier fits, and transforming new data uses the fitted coefficients and leaves them unchanged.',
     ['inputs', 'configurations', 'histories'], 'all series, memory lengths (equal, mixed, zero), external factors, numbers of components and iteration limits',
     'Tests fit one-component models to long simulated series and compare with generous tolerance; weights, mixed memory and external factors are not exercised.',
     [FV, FB], [('alignment of component models', FV+':_initialize_components'), ('weighted fits', FV+':_update_parameters')],
     ['mu', 'A', 'B0', 'Gamma', 'cost_'])

prop('C13', 'The local VARX model is the exact (weighted) least squares fit',
     'Fitting the local linear model yields the intercept, lag matrices, exogenous lag matrices and contemporaneous exogenous matrix that minimise the (weighted, if weights are given) sum of squared residuals of the series after its presample, with residuals equal to the series minus the fitted prediction, aligned in time. '
     'Scaling all weights does not change the coefficients, unit weights give the unweighted fit, zero-weight samples have no influence, and the residual covariance is the residual product matrix divided by the residual degrees of freedom (sum of weights minus one when weighted) with its inverse available, even if singular.',
     ['inputs', 'configurations', 'histories'], 'all series, orders of endogenous and exogenous lags (either may be larger or zero), weights, and repeated fits of one model',
     'Tests fit simulated VAR processes for a few orders and compare with the generating parameters within statistical error.',
     [FV], [('design matrix', FV+':FEMBVVARXLocalLinearModel.__init__'), ('least squares', FV+':FEMBVVARXLocalLinearModel.fit')],
     ['mu', 'A', 'B', 'B0', 'Sigma_u', 'Sigma_u_inv', 'residuals'])

prop('C14', 'Piecewise VARX fits each classified region by least squares',
     'A cluster-based piecewise VARX model clusters the stacked vectors of lagged endogenous, lagged exogenous and current values (most recent lag first), trains the classifier on the lagged values alone with those cluster labels, returns the classifier labels of all samples after the presample, and for each region returns the least squares coefficients, residuals and degrees-of-freedom corrected residual covariance of exactly the samples labelled with it. '
     'Transforming data labels it with the fitted classifier in the same way, one-dimensional series are treated as a single column, and results do not depend on earlier fits of the same model.',
     ['inputs', 'configurations', 'histories'], 'all series, lag orders, exogenous inputs, with and without intercept, and user supplied clusterers and classifiers',
     'There are no tests of this module.',
     [PW], [('predictor stacking', PW+':_stack_predictors'), ('clustering and classification', PW+':fit_transform'), ('per region least squares', PW+':_fit_var_model')],
     ['fit_transform return value', 'mu', 'A', 'B', 'Sigma_u', 'residuals', 'transform'])

prop('C15', 'k-means Markov models count transitions and propagate them',
     'Entry (j, k) of the fitted transition matrix is the number of steps from a sample in cluster k directly to one in cluster j divided by the number of samples of cluster k that have a successor, so every column with an observed successor is a probability vector. '
     'Predicting over horizon h gives, for each sample, the column distribution after h applications of that matrix to the indicator of its nearest cluster (the indicator itself for h = 0); reported labels, centres, inertia, fit_predict and fit_transform agree with the fitted clustering, and sample weights affect the clustering only.',
     ['inputs', 'configurations', 'histories'], 'all series, numbers of clusters (or none given), horizons, sample weights and refits',
     'Tests fit one random data set and compare label counts for it.',
     [KM], [('transition counting', KM+':kmeans_markov_crom'), ('propagation', KM+':predict')],
     ['transition_matrix_', 'labels_', 'predict', 'fit_predict', 'fit_transform', 'transform'])

prop('C16', 'Results are reproducible and independent of other work',
     'With an integer seed, repeating any fit with the same data and options gives bitwise the same factors and cost; fits never draw from or reseed the global NumPy random generator when given their own random state, and different seeds are actually used; no result depends on the previous contents of uninitialised work arrays. '
     'Verbosity only affects printed output, and models fitted at the same time in other threads, however their steps interleave, do not affect each other\'s results.',
     ['schedules', 'inputs', 'configurations', 'histories'], 'all data, options, seeds, thread interleavings at line granularity and other models fitted before or at the same time',
     'No test repeats a fit or runs two at once.',
     [AA, GP, CR, MT, FB, FK, FV, PW, KM], [('random state handling', RM+':_uniform_stochastic_matrix'), ('per-instance workspaces', AA+':_initialize_workspace'), ('per-instance workspaces', MT+':_initialize_workspace')],
     ['all fitted attributes', 'np.random state', 'stdout'])

prop('C17', 'Caller arrays and earlier results are never modified',
     'No fit, transform, prediction or helper routine other than the documented in-place simplex projections changes the contents of any array, list or dictionary passed to it: data, kernels, starting guesses, external factors, sample weights, dissimilarities, lags and exclusions. '
     'Arrays returned by, or read as fitted dictionary from, an earlier fit or transform of a model keep their contents when the same or another model is fitted, transformed or used for prediction later, and later changes by the caller to arrays passed to a finished fit do not change the fitted model.',
     ['inputs', 'histories', 'configurations'], 'all entry points, options and call sequences on one or several models',
     'No test looks at its inputs, or at earlier results, after a call.',
     [AA, GP, CR, MT, FB, FK, FV, PW, KM, FS, SP], [('copies of data and starting guesses', GP+':_gpnh_convex_coding'), ('copies', AA+':_kernel_aa'), ('copies', FK+':_initialize_components')],
     ['argument arrays before and after each call', 'results retained by the caller'])

prop('C18', 'A refit does not depend on what the model was used for before',
     'Fitting a model object that was already used for fits, transforms, predictions or failed calls on other data gives exactly the result of fitting a fresh object with the same options and random state. '
     'The same holds for transforms and predictions: they depend on the last fit, the data and the random state, not on earlier transforms.',
     ['histories', 'configurations', 'inputs'], 'all sequences of calls on one object before the observed one, with data of other shapes, other external inputs, and calls that raised',
     'Every test uses a fresh object per fit.',
     [AA, GP, CR, MT, FB, FK, FV, PW, KM], [('workspace initialisation at every call', AA+':_initialize_workspace'), ('workspace initialisation', GP+':_initialize_workspace'), ('component initialisation', FV+':_initialize_components')],
     ['all fitted attributes after call sequences'])

prop('C19', 'Invalid requests are rejected and leave the fitted model intact',
     'Non-positive or non-integer numbers of components or iterations, negative or non-numeric tolerances, unknown initialisation methods, non-square kernels, starting guesses of wrong shape or not summing to one where required, external factors of wrong length, negative or malformed lags, orders or memory, and wrongly sized weights raise ValueError or TypeError instead of producing a result. '
     'A call rejected for one of these reasons leaves the factors and reported results of the previous fit unchanged.',
     ['inputs', 'configurations', 'histories'], 'all such invalid arguments at every public entry point, on fresh and on fitted models',
     'Tests cover the helper checks and FurthestSum errors only.',
     [AA, GP, MT, FB, FK, FV, FS, VA], [('parameter validation', GP+':_gpnh_convex_coding'), ('starting guess validation', VA+':_check_unit_axis_sums'), ('memory validation', FV+':__init__')],
     ['raised exceptions', 'fitted attributes after a rejected call'])

prop('C20', 'Starting guesses are what the initialisation option says',
     'With "furthest_sum" initialisation, archetypal analysis, convex coding and MTD coding start from dictionaries consisting of distinct samples selected by FurthestSum from the pairwise Euclidean (or kernel) distances, honouring a given start index, exclusions (also without a start index) and number of extra steps; "random" gives feasible random factors and dictionaries of the documented scale, no option given means the documented default, and "custom" starts exactly from the given factors. '
     'Random stochastic matrices have strictly the requested shape with rows or columns summing to one.',
     ['inputs', 'configurations'], 'all data sets, options, seeds and custom guesses',
     'Tests of the FurthestSum-initialised models check results on two hand-made data sets only; options are not passed.',
     [AA, GP, MT, FS, RM], [('FurthestSum dictionary', GP+':_initialize_gpnh_convex_coding_dictionary_furthest_sum'), ('FurthestSum dictionary', AA+':_initialize_kernel_aa_dictionary_furthest_sum'), ('random stochastic matrices', RM)],
     ['factors at the start of the optimisation (workspace set-up of a subclass), results after one iteration'], None,
     'none in /repo: a subclass in the harness records the factors when the optimisation workspace is set up')

prop('C21', 'Results do not depend on the storage of the data',
     'Giving the same numbers as integers, as Fortran-ordered, strided or read-only arrays, or (where array-likes are documented) as nested lists yields the same fit, transform and prediction (up to rounding) as C-ordered double precision arrays, for every model and for starting guesses as well. '
     'Single-precision data yields a feasible result close to one of double precision.',
     ['inputs', 'configurations'], 'all data sets representable in several types and memory layouts, and every model',
     'All tests use freshly created C-ordered double arrays.',
     [AA, GP, CR, MT, FB, FK, FV, PW, KM, VA], [('conversion to floating point', VA+':_as_float_array')],
     ['fitted attributes', 'transform', 'predict'])

prop('C22', 'Step-length rules stay within their safeguards',
     'For a descent direction and a trial step whose cost fails to decrease sufficiently, the next trial step length is positive and strictly smaller than the current one: the minimiser of the quadratic interpolating the two costs and the slope if it lies between the lower safeguard and the upper fraction of the current step, and half the current step otherwise. '
     'The next spectral step size is the given ratio of step to gradient change clipped to its bounds, and the upper bound when the curvature is not positive.',
     ['inputs', 'configurations'], 'all step lengths, slopes, costs, safeguards, curvatures and bounds',
     'There are no tests of these rules; fits reach only some branches.',
     [SPG], [('quadratic interpolation', SPG+':get_next_spg_step_length'), ('spectral step', SPG+':get_next_spg_alpha')],
     ['get_next_spg_step_length', 'get_next_spg_alpha'])

prop('C23', 'Omitted options take their documented defaults',
     'Leaving out the number of components uses all features (all samples for archetypal analysis), leaving out the initialisation method gives the documented method, leaving out lags means lag one, leaving out memory means zero memory, leaving out the variation bound imposes none, leaving out the number of clusters means two, and leaving out the tolerance or iteration limit means the documented values; each gives the same result as passing that value explicitly.',
     ['configurations', 'inputs'], 'all data sets and seeds, for every model and option',
     'Tests always pass these options.',
     [AA, GP, CR, MT, FB, FK, FV, KM], [('fallbacks', GP+':__init__'), ('fallbacks', AA+':_kernel_aa'), ('fallbacks', FV+':__init__'), ('fallbacks', KM+':kmeans_markov_crom')],
     ['fitted attributes'])

prop('C24', 'Relaxed archetypal analysis rescales archetypes within bounds',
     'With a positive relaxation parameter d, archetypal analysis may rescale each archetype by a factor in [1 - d, 1 + d]: all factors remain feasible, fitting does not increase the objective, the reported cost is that of the rescaled factorisation, and at the result no rescaling of a single archetype within the bounds lowers the cost noticeably.',
     ['inputs', 'configurations'], 'all data sets, relaxation parameters and starting points',
     'Tests with non-zero relaxation only check that the cost does not increase and that factors lie in bounds, both true when the factors never move.',
     [AA], [('scale factor update', AA+':_update_dictionary')],
     ['cost_', 'dictionary_', 'fit_transform return value'], [('alpha', 'scale factor of each archetype', AA)])

prop('C25', 'Finite data gives finite results',
     'For finite data within a wide range of magnitudes, including duplicated, constant, collinear and all-zero samples, more components than distinct samples, components that end up empty, and single samples where a model permits them, every fit and transform of every model (piecewise VARX and k-means Markov chains included) returns normally and all factors, parameters, costs and reconstructions are finite.',
     ['inputs', 'configurations'], 'all finite data of magnitude 1e-6 to 1e6 in every model, with every option',
     'Tests use well-conditioned random data.',
     [AA, GP, CR, MT, FB, FK, FV], [('line search termination', GP+':_dictionary_line_search'), ('guarded dissimilarities', GP+':_initialize_gpnh_convex_coding_dictionary_furthest_sum'), ('empty components', FK+':_update_parameters')],
     ['all fitted attributes', 'floating-point exception flags'])

prop('C26', 'Models commute with relabelling and rigid motion of the data',
     'Starting from correspondingly transformed starting guesses, permuting the components or features permutes the results; permuting the samples permutes the results of archetypal analysis, convex coding and FEM-BV-k-means without a variation bound; orthogonal transformations of the feature space rotate dictionaries, centroids and lag coefficients of the observations correspondingly and leave weights, affiliations and cost unchanged; translating the data translates dictionaries of feature vectors and centroids (and adjusts intercepts only) and leaves weights, affiliations, archetypal dictionaries and cost unchanged; and reordering the lags of the MTD coding reorders its parameters (all up to rounding, or solver accuracy for FEM-BV, after the same number of iterations, unless the fit itself is sensitive to rounding).',
     ['inputs', 'configurations', 'histories'], 'all data sets, permutations, orthogonal maps and translations',
     'No test relates two fits.',
     [AA, GP, MT, FK, FV], [('updates treating samples, features and components uniformly', GP+':_update_weights'), ('updates', AA+':_update_dictionary')],
     ['fitted attributes of pairs of fits'])

prop('C27', 'fit, fit_transform and copies of a model all agree',
     'Fitting with or without returning the representation leaves an equally seeded model in exactly the same state; fitting returns the model itself, and the returned representation combined with the fitted dictionary is its inverse transform. '
     'Deep copies and pickles of a model, taken before or after fitting or transforming, report the same results and continue exactly as the original would, and using or refitting one of them never changes the other.',
     ['histories', 'inputs', 'configurations'], 'all models, options, seeds, moments of copying and later uses of either copy',
     'Tests never copy a model and always use fit_transform or fit, not both.',
     [AA, GP, CR, MT, FK, FV, FB, PW, KM], [('fit by way of fit_transform', GP+':fit'), ('fit by way of fit_transform', FB+':fit'), ('state of a model object', AA+':fit_transform')],
     ['fitted attributes of both objects', 'transform', 'predict', 'inverse_transform'])

prop('C28', 'Factors excluded from updating stay as given, the rest is optimised',
     'When a fit is told not to update the dictionary, the weights, the lag parameters, the affiliations or the model parameters, those factors are returned exactly as given, whichever of the others are updated and whatever the iteration limit. '
     'The other factors remain feasible, the objective does not exceed that of the given starting point, the reported cost is that of the returned factors, and long fits reach an optimum of the remaining problem: the minimising dictionary, weights or lag parameters with the others held fixed, the weighted means or least squares coefficients for given affiliations, and the least-cost affiliations within the variation bound for given parameters.',
     ['configurations', 'inputs', 'histories'], 'all models, combinations of factors excluded from updating, starting points, penalties and iteration limits',
     'Tests update one factor with the internal update routines on a few random matrices; the public switches are never used.',
     [AA, GP, CR, MT, FB, FK, FV], [('conditional updates', GP+':_iterate'), ('conditional updates', AA+':_iterate'), ('conditional updates', MT+':_iterate'), ('conditional updates', FB+':_iterate')],
     ['fit_transform return value', 'dictionary_', 'order_weights', 'transition_matrices', 'Theta', 'mu', 'A', 'B0', 'cost_'])

EX = 'examples/'
prop('C29', 'Example programs generate what they say and report the best fit',
     'The data generators of the example programs return series that follow exactly the process described by the parameters, component indicators or phases returned with them, up to noise of the requested size, switching between components as often as requested, and depend on the given random state only. '
     'Their repeated-fit helpers pass the given options to the requested number of fits and return the fit of lowest cost with its own weights; the programs run to completion for all valid options, a random seed reproduces their results, and what they print and plot are the results of the fits performed.',
     ['configurations', 'inputs'], 'all seeds, sizes, orders, switches, periods and program options',
     'There are no tests of the example programs.',
     [EX+'fem-bv-kmeans/gaussian_clusters.py', EX+'fem-bv-varx/switching.py', EX+'fem-bv-varx/periodic.py', EX+'pwvarx/kmeans_siso.py'],
     [('data generation', EX+'fem-bv-varx/switching.py:generate_data'), ('best of several fits', EX+'fem-bv-varx/switching.py:fit_fembv_varx'), ('summary of repeated fits', EX+'pwvarx/kmeans_siso.py:main')],
     ['generate_data', 'fit_fembv_kmeans', 'fit_fembv_varx', 'main'])

prop('C30', 'Progress reports state what happened',
     'Fits and transforms print nothing unless asked to. With verbosity, each prints one table with the number of components and one row per iteration performed, '
     'in order, showing the number of the iteration, the objective after it, its change during the iteration and a non-negative time no longer than the call; '
     'and it announces convergence, naming the last iteration, exactly if it stopped because the tolerance was reached. Asking for reports changes no result.',
     ['configurations', 'inputs', 'histories'], 'all models, verbosity levels, tolerances, iteration limits, fits and transforms',
     'No test reads the output.',
     [AA, GP, CR, MT, FB], [('progress table', GP+':GPNHConvexCoding._iterate'), ('progress table', FB+':FEMBV._iterate'), ('progress table', AA+':KernelAA._iterate')],
     ['standard output', 'cost_', 'n_iter_'])

prop('C31', 'Every update is a spectral projected gradient step with the options given',
     'In archetypal analysis, convex coding, MTD coding and the lag model of the GPNH CROM each iteration updates the factors one after another. The step of a factor starts from the projection of the factor moved against its gradient, '
     'by a spectral step length of one initially and thereafter given by the last change of factor and gradient, limited to [alpha_min, alpha_max] (alpha_max without positive curvature), '
     'and is shortened with the safeguards sigma_one and sigma_two until the objective has fallen by the fraction gamma of the predicted decrease below the largest of the last line_search_memory objectives, or the step becomes smaller than step_size_tolerance. '
     'Requiring monotonic decrease makes a fit fail exactly if an update raises the objective and has no other effect.',
     ['histories', 'inputs', 'configurations'], 'all iterates, data sets, starting points and combinations of line search options',
     'Tests leave the options at their values and only look at the cost.',
     [AA, GP, CR, MT, SPG], [('dictionary update', GP+':_update_dictionary'), ('weights update', GP+':_update_weights'), ('lag parameter updates', MT+':_update_parameters'), ('step rules', SPG)],
     ['factors after every iteration', 'RuntimeError'], [('alpha', 'spectral step length of each factor', GP), ('f_mem', 'last objectives', GP)])

prop('C32', 'Calls that end early leave nothing behind',
     'When a fit, transform or forecast is ended by an exception at any point, such as a keyboard interrupt or lack of memory, the exception reaches the caller; the arrays of the caller, process-wide settings, results returned earlier and other models are as before; '
     'an interrupted transform or forecast leaves the fitted model as it was, so that later uses equal those of an undisturbed model; and a later fit of the same object equals that of a new object.',
     ['crash_points', 'histories', 'inputs'], 'all points at which a call can be interrupted, in all models and histories',
     'No test interrupts a call.',
     [AA, GP, CR, MT, FK, FV, FB, PW, KM], [('transform of new data', GP+':transform'), ('replacement of parameters', FV+':_initialize_components'), ('transform of new data', FB+':transform')],
     ['fitted attributes', 'transform', 'predict', 'arguments', 'numpy.geterr', 'numpy.random.get_state', 'warnings.filters'])

prop('C33', 'Models agree where their definitions coincide',
     "The reduced order model's coding equals convex coding with the same options; MTD coding without a lag penalty follows convex coding and leaves its lag parameters alone; "
     "FEM-BV-VARX without memory and external factors equals FEM-BV-k-means, which without a bound is Lloyd's algorithm, and a bound larger than the variation needed changes nothing; with one component FEM-BV-VARX is the local "
     'least squares model with that memory, and piecewise VARX with one region equals the same local model; external factors that carry no information (zero, constant or repeated columns) leave the fitted series unchanged; '
     'one component gives the mean of the data in every clustering and coding; with every sample an archetype the error is zero; integer sample weights act as repeated samples; and continuing a FEM-BV fit from its own parameters and affiliations equals one longer fit.',
     ['inputs', 'histories'], 'all data and options on which two models or two ways of fitting coincide',
     'Tests exercise each model alone.',
     [AA, GP, CR, MT, FK, FV, FB, PW], [('cost and updates', FB+':_iterate'), ('lag penalty', MT), ('weighted least squares', FV+':FEMBVVARXLocalLinearModel'), ('region fits', PW)],
     ['weights', 'dictionary', 'Theta', 'parameters', 'cost', 'inverse_transform'])

prop('C34', 'Units of measurement do not matter where no option has units',
     'Expressing data, and starting parameters, in other units changes nothing but the units of the results: FurthestSum and the starts made with it select the same samples; '
     'k-means Markov models have the same labels, transition matrix and predictions; FEM-BV models (with a tolerance in the same units) have the same affiliations and iterations, with parameters and cost converted; '
     'coefficients, residuals and covariances of the local least squares models, with every column in its own units, and of piecewise VARX models are converted exactly, however small or large the numbers are; and multiplying all observation weights by a number leaves weighted coefficients as they are.',
     ['inputs'], 'all data, units and magnitudes representable without underflow',
     'Tests use data of order one.',
     [FS, AA, GP, FK, FV, FB, PW, KM], [('selection', FS+':furthest_sum'), ('normalised costs', FB+':_update_weights'), ('least squares', FV+':FEMBVVARXLocalLinearModel'), ('region fits', PW)],
     ['selected samples', 'weights', 'Theta', 'parameters', 'Sigma_u', 'residuals', 'transition matrix'])

prop('C35', 'Repeated use does not accumulate',
     'A model, and the package, can be used again and again in a long-running process: what a model keeps depends on its options and the problem of its last use, not on how many fits, transforms, forecasts, rejected calls or iterations came before; '
     'the data and starting values of earlier calls, and deleted models, are released; and nothing outside the models holds on to data, dissimilarities or fitted values of the uses made so far.',
     ['histories', 'inputs', 'configurations'], 'all sequences of uses of all models and functions',
     'Tests use each object once or twice, in processes that end soon.',
     [AA, GP, CR, MT, FK, FV, FB, PW, KM, FS, SP], [('state of fits', GP+':_fit_transform'), ('state of FEM-BV fits', FB+':_fembv_fit'), ('selection', FS+':furthest_sum'), ('pieces', PW)],
     ['memory reachable from models', 'memory held by the process'])

prop('C36', 'Options assigned to an existing model count from its next call',
     'The options of a model are attributes that may be assigned at any time: after a number of components, initialisation, tolerance, iteration limit, random state, regularisation, lags, memory, order, switching bound, scale bound or line search setting is changed, in a new, fitted, used or copied model, '
     'the next fit gives bit for bit what a model constructed with these options gives (no default, buffer, constraint or coefficient of the earlier options survives), an iteration limit or tolerance assigned before a transform governs the transform, and the assignment itself changes no fitted result. '
     'NumPy scalars and arrays are as good as Python numbers and lists.',
     ['histories', 'configurations', 'inputs'], 'all assignments of options in all states of a model',
     'Tests construct a new model for every set of options.',
     [AA, GP, CR, MT, FK, FV, FB, PW, KM], [('default clusterer', PW+':_cluster'), ('constraints', FB+':_initialize_constraints'), ('workspaces', GP+':_initialize_workspace'), ('memory', FV+':_initialize_components')],
     ['results of fits and transforms after assignments'])

prop('C37', 'Memory and work grow in proportion to the data',
     'Convex codings, FEM-BV models, piecewise VARX and k-means Markov models with random starts need memory in proportion to the numbers of samples and features, whatever the number of iterations, never a table of pairs of samples or (convex codings, FEM-BV-k-means, k-means Markov models) of pairs of features; archetypal analysis and FurthestSum need no more than a few tables of pairs of samples; '
     'the simplex projections need memory in proportion to their argument. Work per iteration grows in proportion to the samples and features, and total work in proportion to the iterations.',
     ['inputs', 'configurations'], 'problems of growing size',
     'Tests use small data, for which any growth is fast enough.',
     [AA, GP, CR, MT, FK, FV, FB, PW, KM, FS, SP], [('order weight gradient', MT+':_update_parameters_gradient'), ('sparse constraints', FB+':_initialize_constraints'), ('norm of the data', GP+':_initialize_workspace'), ('row-wise projection', SP)],
     ['peak memory', 'executed steps'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
