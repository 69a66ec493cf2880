NOT_APPLICABLE = {}
PROPS = [
 dict(id='C01', title='Row-to-observation, alternative and choice mappings are exact',
  statement='For long-format data with any observation, alternative and mixing identifiers, the incidence matrices built for a model have a one exactly where a row belongs to that observation, alternative or individual, with columns ordered as documented, and the mapping of chosen rows marks exactly the chosen row of each observation. Asking for dense or sparse output, for a nest mapping or for a mapping of an outside data set changes only the representation, never which entries are one.',
  over=['inputs', 'configurations'],
  q='all identifier values (arbitrary integers), row orders, availability patterns, choices and nest specifications of the bounded tables',
  why='The tests use one table with consecutive identifiers sorted inside each observation; gaps, unsorted alternatives, missing alternatives and repeated individuals are quantified over, not sampled.',
  files=['choice_tools.py'],
  mech=[('create_long_form_mappings', 'choice_tools.py'), ('create_row_to_some_id_col_mapping', 'choice_tools.py'), ('create_sparse_mapping', 'choice_tools.py')],
  note='Identifiers, choices and row order are symbolic in tables of up to 6 rows.'),
 dict(id='C02', title='Design matrix follows the utility specification exactly',
  statement='For any specification, each index column of the design matrix holds the variable\'s values on the rows of the alternatives that share that coefficient and zero elsewhere, and the columns and their names appear in specification order. Alternative-specific, generic and grouped coefficients are interpreted identically regardless of row order or which alternatives are available.',
  over=['inputs', 'configurations'],
  q='all covariate values and alternative identifiers, every mix of generic, per-alternative and grouped coefficients in the bounded tables',
  why='Tests check one specification on one small table; the property ranges over all covariate values, identifiers and specification shapes.',
  files=['choice_tools.py', 'base_multinomial_cm_v2.py'],
  mech=[('create_design_matrix', 'choice_tools.py')],
  note='Covariates and identifiers symbolic; specifications enumerated as cases.'),
 dict(id='C03', title='Wide-to-long conversion preserves every value and choice',
  statement='Converting wide-format data to long format yields exactly one row per observation and available alternative, each carrying that observation\'s individual values, that alternative\'s own attribute values, and a choice indicator that is one exactly when the observation chose that alternative. The result does not depend on the order in which availability columns, alternative-specific variables or choices happen to be listed.',
  over=['inputs', 'configurations'],
  q='all values, availability patterns, choices and listing orders in the bounded tables',
  why='Tests use one fixed wide table and one listing order.',
  files=['choice_tools.py'],
  mech=[('convert_wide_to_long', 'choice_tools.py')],
  note='Values, availabilities and choices symbolic.'),
 dict(id='C04', title='Long-to-wide conversion preserves data and inverts wide-to-long',
  statement='Converting long-format data to wide format yields one row per observation with that observation\'s identifiers, choice, individual-specific values, per-alternative availability and per-alternative attributes, with the documented null value where an alternative is unavailable. Converting the result back to long format reproduces the original rows.',
  over=['inputs', 'configurations'],
  q='all values, identifiers, row orders, choices and availability patterns in the bounded tables',
  why='Tests use one fixed long table whose rows are sorted by observation and never round-trip arbitrary data.',
  files=['choice_tools.py'],
  mech=[('convert_long_to_wide', 'choice_tools.py')],
  note='Values, row positions and choices symbolic.'),
 dict(id='C05', title='Invalid specifications and data are rejected before any estimation',
  statement='Missing columns, non-numeric or infinite data, inconsistent or duplicate identifiers, observations with the wrong number of choices, malformed specifications, names, nests, reference positions, starting values of the wrong length, inconsistent observation weights, prediction parameter lists of the wrong form and confidence levels outside (0, 100) raise an error before a model is built, estimated or used. Well-formed inputs within the documented format are never rejected.',
  over=['inputs', 'configurations'],
  q='all values within each class of well-formed and malformed input in the bounded tables',
  why='Each test feeds a single malformed example; acceptance of all well-formed inputs and rejection of every member of a malformed class is universal.',
  files=['choice_tools.py', 'base_multinomial_cm_v2.py', 'pylogit.py', 'nested_logit.py', 'mixed_logit.py', 'estimation.py'],
  mech=[('ensure_* validators', 'choice_tools.py'), ('ensure_*/check_* validators', 'base_multinomial_cm_v2.py'), ('create_choice_model', 'pylogit.py')],
  note='The values that decide acceptance are symbolic; the malformed classes are cases.'),
 dict(id='C06', title='Logit-type probabilities equal the published model formulas',
  statement='For the multinomial, clog-log, scobit, uneven and asymmetric logit models, the probability of every available alternative equals the softmax, within its choice situation, of the published transformation of its systematic utility plus its intercept; unavailable alternatives take no share. Probabilities are positive and sum to one per choice situation, and evaluating several parameter vectors at once equals evaluating them one by one.',
  over=['inputs', 'configurations'],
  q='all covariates and parameters, every reference position, availability pattern of the bounded tables',
  why='Tests compare a handful of numbers on one table; the formula must hold for every parameter vector and reference position.',
  files=['choice_calcs.py', 'conditional_logit.py', 'clog_log.py', 'scobit.py', 'uneven_logit.py', 'asym_logit.py', 'base_multinomial_cm_v2.py'],
  mech=[('calc_probabilities', 'choice_calcs.py'), ('_*_utility_transform', 'clog_log.py, scobit.py, uneven_logit.py, asym_logit.py')],
  note='Covariates and parameters symbolic, |V| restricted to the regular region.'),
 dict(id='C07', title='Probabilities and log-likelihood stay finite at extreme utilities and parameters',
  statement='For any finite covariates and parameters, however large or small, the probabilities of the multinomial, clog-log, scobit, uneven, asymmetric and nested logit models are finite, strictly positive and (for the non-nested models) sum to one per choice situation, and the log-likelihood is a finite number: exponentials that overflow or underflow are capped rather than turned into nan, infinite or zero probabilities. The gradient of the multinomial logit is finite as well.',
  over=['inputs'],
  q='all systematic utilities, intercepts, shape and nest parameters up to 1e15 in size, in the bounded tables',
  why='Tests try two or three large numbers; the caps must compose for every combination of magnitudes and signs across transformation, sum and logarithm.',
  files=['choice_calcs.py', 'nested_choice_calcs.py', 'conditional_logit.py', 'clog_log.py', 'scobit.py', 'uneven_logit.py', 'asym_logit.py'],
  mech=[('calc_probabilities, calc_log_likelihood', 'choice_calcs.py'), ('utility transforms', 'clog_log.py, scobit.py, uneven_logit.py, asym_logit.py, conditional_logit.py'), ('calc_nested_probs', 'nested_choice_calcs.py')],
  note='Floating-point overflow, underflow and absorption are modelled; other rounding is not.'),
 dict(id='C08', title='Nested logit probabilities equal the nested logit formula',
  statement='For any nest specification, nest parameters and covariates, the nested logit probability of each available alternative is the probability of its nest times its conditional probability within the nest, with the logistic reparametrisation of the nest coefficients. Probabilities sum to one in every choice situation, and nests with no available alternative take no share and do not disturb the others.',
  over=['inputs', 'configurations'],
  q='all covariates, index and nest parameters, availability patterns and nest specifications (including degenerate and unavailable nests) of the bounded tables',
  why='Tests compare a handful of numbers for one nest structure with every nest always available.',
  files=['nested_choice_calcs.py', 'nested_logit.py'],
  mech=[('calc_nested_probs', 'nested_choice_calcs.py'), ('split_params/naturalize_nest_coefs', 'nested_logit.py, nested_choice_calcs.py')],
  note='Covariates and parameters symbolic.'),
 dict(id='C09', title='Mixed logit draws and probabilities follow the panel mixed logit formula',
  statement='Each mixing coefficient of an individual in a draw is its mean plus its standard deviation times that individual\'s draw, shared by all rows of the individual. The probability of an individual\'s sequence of choices is the average over draws of the product over the individual\'s choice situations of the kernel logit probability of the chosen alternative, and the number of draws, seed and order of individuals are respected.',
  over=['inputs', 'configurations'],
  q='all covariates, parameters and draw values, individual identifiers and panel shapes of the bounded tables',
  why='Tests use one table, two draws and fixed numbers.',
  files=['mixed_logit_calcs.py', 'mixed_logit.py', 'choice_calcs.py'],
  mech=[('get_normal_draws, create_expanded_design_for_mixing, calc_choice_sequence_probs', 'mixed_logit_calcs.py'), ('add_mixl_specific_results_to_estimation_res, MixedLogit', 'mixed_logit.py')],
  note='Covariates, parameters and draws symbolic.'),
 dict(id='C10', title='Objective equals the weighted penalised log-likelihood',
  statement='The log-likelihood reported for any parameter vector is the weighted sum over observations of the log probability of the chosen alternative, minus the ridge penalty when one is given. Observation weights scale exactly their own observation\'s contribution.',
  over=['inputs', 'configurations'],
  q='all covariates, parameters, weights and ridge values in the bounded tables',
  why='Tests check one number per model.',
  files=['choice_calcs.py', 'nested_choice_calcs.py', 'mixed_logit_calcs.py', 'estimation.py'],
  mech=[('calc_log_likelihood', 'choice_calcs.py'), ('calc_nested_log_likelihood', 'nested_choice_calcs.py'), ('calc_mixed_log_likelihood', 'mixed_logit_calcs.py')],
  note='Covariates, parameters, weights, ridge symbolic.'),
 dict(id='C11', title='Gradient of logit-type models is the derivative of the objective',
  statement='For the multinomial, clog-log, scobit, uneven and asymmetric logit models, the analytic gradient supplied to the optimiser equals the exact derivative of the reported weighted, penalised log-likelihood with respect to every shape, intercept and index parameter.',
  over=['inputs', 'configurations'],
  q='all covariates, parameters, weights, ridge values and reference positions in the bounded tables',
  why='Tests compare with one hand computation; an error that vanishes at the tested point or reference position goes unnoticed.',
  files=['choice_calcs.py', 'clog_log.py', 'scobit.py', 'uneven_logit.py', 'asym_logit.py', 'estimation.py'],
  mech=[('calc_gradient', 'choice_calcs.py'), ('transformation derivatives', 'clog_log.py, scobit.py, uneven_logit.py, asym_logit.py')],
  note='Derivative taken symbolically from the published formula.'),
 dict(id='C12', title='Nested logit gradient is the derivative of its objective',
  statement='The analytic gradient of the nested logit model equals the exact derivative of the reported weighted log-likelihood with respect to every nest and index parameter, including when some nests are unavailable in some choice situations; with a ridge penalty the index part still matches the penalised objective.',
  over=['inputs', 'configurations'],
  q='all covariates, index and nest parameters, weights, ridge values and availability patterns in the bounded tables',
  why='Tests compare with one hand computation in which every nest is available.',
  files=['nested_choice_calcs.py', 'nested_logit.py', 'estimation.py'],
  mech=[('calc_nested_gradient', 'nested_choice_calcs.py')],
  note='Derivative taken symbolically from the published formula.'),
 dict(id='C13', title='Mixed logit gradient is the derivative of the simulated log-likelihood',
  statement='The analytic gradient of the mixed logit model equals the exact derivative of the reported weighted simulated log-likelihood with respect to every mean and every standard deviation, for any number of draws and any panel shape.',
  over=['inputs', 'configurations'],
  q='all covariates, parameters, draws and weights in the bounded tables',
  why='Tests compare with one hand computation on one table.',
  files=['mixed_logit_calcs.py', 'mixed_logit.py', 'choice_calcs.py'],
  mech=[('calc_mixed_logit_gradient', 'mixed_logit_calcs.py')],
  note='Derivative taken symbolically from the simulated likelihood.'),
 dict(id='C14', title='Hessian is the documented curvature of the log-likelihood',
  statement='The analytic Hessian of the multinomial logit equals the exact second derivative of the weighted, penalised log-likelihood; for the other logit-type models it equals the documented curvature that drops second derivatives of the utility transformation. It is symmetric, and each parameter block sits at the position of that parameter in the parameter vector.',
  over=['inputs', 'configurations'],
  q='all covariates, parameters, weights, ridge values, and for the generalized models all values of the transformation and its first derivatives',
  why='Tests compare one matrix on one table.',
  files=['choice_calcs.py', 'estimation.py'],
  mech=[('calc_hessian', 'choice_calcs.py'), ('create_matrix_blocks', 'estimation.py')],
  note='The transformation is arbitrary (uninterpreted values and derivatives).'),
 dict(id='C15', title='BHHH information matrix is the weighted sum of score outer products',
  statement='The information approximation used for robust inference is the weighted sum of the outer product of each observation\'s (for mixed logit: each individual\'s) score of the log-likelihood; for the logit-type models the ridge contribution enters the diagonal as documented, and for nested logit the rows and columns of constrained parameters are those of a zero score.',
  over=['inputs', 'configurations'],
  q='all covariates, parameters, weights and ridge values in the bounded tables',
  why='Tests compare one matrix on one table.',
  files=['choice_calcs.py', 'nested_choice_calcs.py', 'mixed_logit_calcs.py'],
  mech=[('calc_fisher_info_matrix', 'choice_calcs.py')],
  note='The transformation is arbitrary (uninterpreted values and derivatives).'),
 dict(id='C16', title='Standard errors, tests and intervals follow from Hessian and BHHH',
  statement='The covariance stored after estimation is the inverse of the negative Hessian of the log-likelihood at the solution and the robust covariance is the sandwich with the BHHH matrix. Standard errors, t statistics, two-sided normal p-values, the summary table and conf_int at any level are those implied by these matrices for the named parameter, and parameters held fixed get no inferential statistics.',
  over=['inputs', 'configurations'],
  q='all parameter values, invertible symmetric Hessian and BHHH matrices, confidence levels and sets of fixed parameters within the bounds; all covariates and solutions in the end-to-end cases',
  why='Tests store one hand-made result set; a transposed, mislabelled or misaligned statistic shows only for other matrices.',
  files=['base_multinomial_cm_v2.py', 'choice_calcs.py', 'estimation.py'],
  mech=[('_store_generic_inference_results, _adjust_inferential_results_for_parameter_constraints, conf_int', 'base_multinomial_cm_v2.py'), ('calc_asymptotic_covariance', 'choice_calcs.py')],
  note='Matrices, parameters and level symbolic; normal distribution functions uninterpreted up to symmetry.'),
 dict(id='C17', title='fit_mle gives the optimiser the model\'s own objective and labels the solution',
  statement='fit_mle of every model minimises the negative of that model\'s weighted, penalised log-likelihood from the given starting values, with its gradient (zero at fixed parameters) and the requested method, tolerances and iteration limit; the observation weights, ridge penalty and fixed positions passed by the user take effect. Each entry of the solution is stored under the name of the nest, shape, intercept or index parameter that it multiplies.',
  over=['inputs', 'configurations'],
  q='all covariates, starting values, evaluation points, weights, ridge values and solutions; every block structure in the bounded tables',
  why='Tests mock the estimation or compare a single estimate; that every option reaches the objective is checked at no other point.',
  files=['conditional_logit.py', 'clog_log.py', 'scobit.py', 'uneven_logit.py', 'asym_logit.py', 'nested_logit.py', 'mixed_logit.py', 'estimation.py', 'base_multinomial_cm_v2.py'],
  mech=[('fit_mle', 'all model modules'), ('estimate, EstimationObj', 'estimation.py'), ('store_fit_results', 'base_multinomial_cm_v2.py')],
  note='The optimiser is a stand-in that queries the objective at an arbitrary point.'),
 dict(id='C18', title='Reported fit statistics are those of the fitted model',
  statement='The stored log-likelihood, null log-likelihood, fitted probabilities, residuals, chi-squares, rho-squared and rho-bar-squared, AIC, BIC, observation and parameter counts and the fit summary are the values their definitions give for the model evaluated at the solution.',
  over=['inputs', 'configurations'],
  q='all covariates, solutions and starting values in the bounded tables',
  why='Tests check stored attributes against hand-made inputs, not against the model for arbitrary solutions.',
  files=['estimation.py', 'base_multinomial_cm_v2.py', 'mixed_logit.py'],
  mech=[('calc_and_store_post_estimation_results, calc_individual_chi_squares, calc_rho_and_rho_bar_squared', 'estimation.py'), ('_store_basic_estimation_results, compute_aic, compute_bic', 'base_multinomial_cm_v2.py')],
  note='Covariates, solution and starting values symbolic.'),
 dict(id='C19', title='Predictions on new data use the estimated model on that data',
  statement='predict returns, for each row of the new data in its own order, the probability that the model formula gives at the stored or supplied parameters, and for the chosen rows exactly those same probabilities, whatever the identifiers, row order and availability in the new data and independently of the data used for estimation. Supplying several parameter vectors gives each one\'s predictions.',
  over=['inputs', 'configurations'],
  q='all covariates, parameters and draws; new data whose identifiers, order and availability differ from the estimation data',
  why='Tests predict on the estimation data.',
  files=['base_multinomial_cm_v2.py', 'choice_calcs.py', 'nested_choice_calcs.py', 'mixed_logit_calcs.py', 'mixed_logit.py', 'nested_logit.py'],
  mech=[('predict', 'base_multinomial_cm_v2.py')],
  note='Covariates, parameters and draws symbolic; layouts of the new data are cases.'),

 dict(id='C20', title='Bootstrap samples are stratified resamples of intact observations',
  statement='Every bootstrap sample draws whole observations with replacement from the original data, keeping the number of observations that chose each alternative, and is reproducible from the seed. The resampled data frame contains, for each drawn observation in order, exactly that observation\'s original rows under a new unique identifier; the original data is left unchanged, and ids or columns that cannot be resampled are rejected.',
  over=['inputs', 'configurations'],
  q='all observation identifiers, choices, covariates and outcomes of the random draws within the bounds',
  why='Tests fix a seed and inspect a single sample; the guarantee must hold for every outcome of the draws and every identifier pattern.',
  files=['bootstrap_sampler.py'],
  mech=[('create_cross_sectional_bootstrap_samples, create_bootstrap_id_array, create_bootstrap_dataframe', 'bootstrap_sampler.py')],
  note='Random draws are arbitrary symbolic picks.'),
 dict(id='C21', title='Percentile and BCa intervals follow their definitions',
  statement='For any replicates and confidence level, the percentile interval is the pair of order statistics at alpha/2 and 1 - alpha/2 of each parameter, and the BCa interval uses the bias correction (from the share of replicates below the estimate), the jackknife acceleration and the adjusted percentiles of Efron and Tibshirani. Lower and upper endpoints stay with their own parameter, and invalid confidence levels are rejected.',
  over=['inputs', 'configurations'],
  q='all replicate and jackknife values, estimates and confidence levels within the bounds',
  why='Tests compare one data set at one confidence level.',
  files=['bootstrap_calcs.py', 'bootstrap_utils.py', 'bootstrap.py'],
  mech=[('calc_percentile_interval, calc_bca_interval', 'bootstrap_calcs.py')],
  note='Replicates, estimates and level symbolic; normal distribution functions uninterpreted up to symmetry.'),
 dict(id='C22', title='ABC intervals follow Efron\'s algorithm for the weighted estimator',
  statement='For any estimator that is a function of the observation weights, the ABC interval perturbs each observation\'s weight by epsilon around equal weights, with the weight shared by the observation\'s rows and multiplied into the user\'s own weights, and combines the resulting first and second differences into the standard error, acceleration, bias, quadratic coefficient and endpoints of the published algorithm. Parameters are treated independently: the interval of one does not depend on whether another has curvature.',
  over=['inputs', 'configurations'],
  q='all estimators (uninterpreted functions of the row weights), estimates and user weights within the bounds',
  why='Tests use one linear toy estimator with equal weights.',
  files=['bootstrap_abc.py', 'bootstrap.py'],
  mech=[('calc_abc_interval and its terms', 'bootstrap_abc.py')],
  note='The estimator is uninterpreted; epsilon and level concrete per case.'),
 dict(id='C23', title='Bootstrap and jackknife replicates refit the same model on resampled data',
  statement='Each bootstrap (jackknife) replicate maximises the likelihood of the same model - same specification, nests, shapes and intercepts - on the data of that resample (on the data without that one observation), using the user\'s weights, ridge penalty, method and tolerances and starting values derived from the MNL fit as documented. Replicates are stored one row per resample, with each value under its parameter\'s name, and the data and estimates of the original model are untouched.',
  over=['inputs', 'histories', 'configurations'],
  q='all covariates, options, optimiser solutions and outcomes of the random draws within the bounds',
  why='Tests check shapes, or mock the estimation; which objective is maximised on which rows is never examined.',
  files=['bootstrap.py', 'bootstrap_mle.py', 'bootstrap_sampler.py'],
  mech=[('generate_bootstrap_replicates, generate_jackknife_replicates', 'bootstrap.py'), ('retrieve_point_est, get_mnl_point_est, extract_default_init_vals', 'bootstrap_mle.py')],
  note='The optimiser is a stand-in that queries the objective at an arbitrary point.'),
 dict(id='C24', title='Individual-level mixed logit predictions condition on each person\'s own past',
  statement='panel_predict returns, for each row of the new data, the average over draws of the kernel probability weighted by the likelihood of that individual\'s own past choices under the same draws; individuals not seen in estimation receive the unconditional average. The result does not depend on the order of individuals or rows in either data set.',
  over=['inputs', 'configurations'],
  q='all covariates of both data sets, parameters and draws within the bounds; individuals in any order, repeated, missing or new',
  why='Tests use one pair of data sets with individuals in the same order.',
  files=['mixed_logit.py', 'mixed_logit_calcs.py'],
  mech=[('panel_predict', 'mixed_logit.py')],
  note='Covariates, parameters and draws symbolic; layouts are cases.'),
 dict(id='C25', title='Replicate log-likelihoods and gradient norms are each replicate\'s own',
  statement='calc_log_likes_for_replicates and calc_gradient_norm_for_replicates report, for each bootstrap or jackknife replicate in order, the model\'s weighted log-likelihood on the original data (less the ridge penalty, where a ridge is given) and the Euclidean norm of its gradient over the unconstrained parameters at that replicate, whatever the number of replicates and the model. An unknown replicate type is rejected.',
  over=['inputs', 'configurations'],
  q='all covariates, replicates, weights, ridge values and draws within the bounds',
  why='Tests use one MNL and one nested data set with a fixed handful of replicates.',
  files=['bootstrap.py', 'base_multinomial_cm_v2.py', 'construct_estimator.py'],
  mech=[('calc_log_likes_for_replicates, calc_gradient_norm_for_replicates', 'bootstrap.py')],
  note='One known finding: panel mixed logit replicate log-likelihoods (see DESIGN.md).'),
 dict(id='C26', title='Results do not depend on earlier calls and inputs are left unchanged',
  statement='Evaluating the objective, gradient, Hessian or probabilities, fitting, predicting, converting data or computing intervals twice with the same arguments gives the same result, whatever was evaluated in between; objects created from the same data do not influence each other; and none of these operations alters the caller\'s data frames, arrays, lists or dictionaries, or the stored data and estimates of the model (apart from the documented intercept column).',
  over=['inputs', 'histories'],
  q='all covariates, parameters, weights and intermediate points in the bounded call sequences',
  why='Tests make one call per fixture; hidden state and aliasing show only in sequences of calls at other points.',
  files=['estimation.py', 'choice_calcs.py', 'nested_choice_calcs.py', 'mixed_logit_calcs.py', 'base_multinomial_cm_v2.py', 'bootstrap.py', 'choice_tools.py', 'pylogit.py'],
  mech=[('EstimationObj and fit_mle of all models', 'src/pylogit'), ('predict', 'base_multinomial_cm_v2.py'), ('Boot', 'bootstrap.py')],
  note='Call sequences of two or three steps at arbitrary points.'),
]
