"""Regenerates /verif/properties.jsonl (kept as code only for readability)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe = None, state = None):
    a = {'files': ['GPy_ABCD/' + f for f in files], 'mechanism': [{'name': n, 'where': 'GPy_ABCD/' + w} for n, w in mech], 'hook_needed': None}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': 'GPy_ABCD/' + w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

KE = 'KernelExpressions/'; KX = 'KernelExpansion/'; M = 'Models/'; U = 'Util/'; K = 'Kernels/'

p('C01', 'Simplification applies exactly the documented kernel identities',
  'Building or simplifying a kernel expression flattens nested sums and products, collapses single-term ones into their parent, and otherwise applies exactly these identities: in a sum, white noise and constants are each kept once, and a constant is dropped when a linear term is present (if linear kernels carry an offset); in a product, white noise is kept once and erases every other base factor except linear ones and change gates, and without white noise repeated SE factors become one and constants disappear unless nothing else (or nothing but gates) is left, when a single constant remains. '
  'Every other term keeps its exact multiplicity and nothing else is added or removed, wherever in the expression it occurs.',
  ['inputs', 'configurations'], 'for every sum/product/change expression, every multiplicity of every base kernel at every node, and both settings of the linear-offset and SE flags',
  'The tests simplify about ten hand-written expressions with one or two copies of a base kernel; the identities interact (collapsing a nested node can enable another rule one level up) and must hold for every multiplicity and shape.',
  [KE + 'commutatives.py', KE + 'commutative_base.py', KE + 'change.py'],
  [('SumKE.simplify_base_terms', KE + 'commutatives.py'), ('ProductKE.simplify_base_terms', KE + 'commutatives.py'), ('simplify / absorb_homogeneous_composites / absorb_singletons', KE + 'commutative_base.py')],
  ['str/repr of the simplified expression', 'base_terms and composite_terms'])

p('C02', 'Simplified expressions are canonical fixpoints with consistent tree links',
  'Simplifying an already simplified expression changes nothing, and no sum directly contains a sum, no product a product, and no operand is a one-term or empty sum or product. '
  'After initialisation every operand knows its true parent and the true root, and exactly the root has no parent.',
  ['inputs', 'configurations'], 'for every expression tree built from the three node types with arbitrary base-kernel multiplicities',
  'Tests call the link checker on one expression and never simplify twice; non-canonical results appear only for particular multiplicities in nested nodes.',
  [KE + 'commutative_base.py', KE + 'change.py', KE + 'base.py'],
  [('simplify', KE + 'commutative_base.py'), ('_initialise, set_root, _set_all_parents', KE + 'base.py'), ('extract_if_singleton', KE + 'commutative_base.py')])

p('C03', 'Expression equality is an order-insensitive structural equivalence',
  'Two kernel expressions compare equal exactly when they have the same node type, the same base-kernel multiset and the same multiset of (equal) composite operands, with the two sides of a change expression compared in order and its kind included; this is reflexive, symmetric and transitive. '
  'Evaluating the textual representation of a simplified expression gives an equal expression, and equality never looks at, or alters, root, parent or fitted parameters.',
  ['inputs'], 'for every pair and triple of expressions over the same shapes with arbitrary base-kernel multiplicities and operand orders',
  'Tests compare a handful of literal pairs; multiset comparison errors need repeated operands on one side or a difference only in multiplicity.',
  [KE + 'commutative_base.py', KE + 'change.py', U + 'genericUtil.py'],
  [('SumOrProductKE.__eq__', KE + 'commutative_base.py'), ('ChangeKE.__eq__', KE + 'change.py'), ('eq_elems', U + 'genericUtil.py'), ('__repr__', KE + 'commutative_base.py')])

p('C04', 'Expression operators perform their documented rewrite without side effects',
  'Addition, multiplication, base swapping, change-point/window wrapping, node replacement, term removal and the higher-curve heuristic return precisely the expressions their rule describes, up to simplification: addition of a base kernel to a product also offers adding it to each base factor in turn, and multiplication of a sum by a base kernel also offers multiplying each base addend in turn. '
  'A swap replaces exactly one copy of one base kernel, a removal drops exactly one term, and no operator modifies its operands, nor does later growth of a newly built result.',
  ['inputs', 'configurations'], 'for every ordered pair of operand kinds (base kernel, sum, product, change expression), every base-kernel multiplicity in them and every base kernel',
  'Tests list a dozen operand pairs with literal answers and never inspect the operands afterwards.',
  [KX + 'kernelExpressionOperations.py', KE + 'commutative_base.py'],
  [('add, multiply, swap_base, one_change, both_changes, replace_node, remove_a_term, higher_curves', KX + 'kernelExpressionOperations.py')])

p('C05', 'Expansion yields exactly the one-rule-applied neighbours of an expression',
  'Expanding an expression with a set of production rules returns precisely the expressions obtained by applying one of the rules at one node of it, including at the single-kernel sides of change expressions, where the rewritten node replaces that node and everything else stays as it was. '
  'The results are simplified, standardised (a lone base kernel is a one-term sum), pairwise different, correctly linked and rooted, and the expanded expression itself is unchanged.',
  ['inputs', 'configurations'], 'for every expression tree of the stated shapes with arbitrary base-kernel multiplicities, every shipped production rule and rule group, and both settings of the SE flag',
  'Rule application is only inspected by eye in the tests; the only automatic check is that one expansion has no duplicate.',
  [KX + 'grammar.py', KE + 'base.py', KE + 'change.py', KE + 'commutative_base.py'],
  [('expand, expand_node, deep_apply, production rules', KX + 'grammar.py'), ('new_tree_with_self_replaced, reassign_child', KE + 'base.py'), ('standardise_singleton_root', KX + 'grammar.py')])

p('C06', 'The built covariance denotes the expression, with one free scale per product',
  'The covariance built from an expression equals, as a function of its inputs and parameters, the sum / product / change composition the expression spells out, with each base kernel occurring with its multiplicity and each change expression applying its first side before and its second side after (or outside and inside) the change. '
  'Among the base factors of a product exactly one keeps a free variance, every sum term keeps its own, and no other parameter is lost or shared between occurrences; the unrefined covariance, evaluated from the text of the expression, is the same composition with every variance kept.',
  ['inputs', 'configurations'], 'for every expression of the stated shapes, every positive parameter assignment and every pair of input points',
  'No test evaluates a covariance built from an expression.',
  [KE + 'commutatives.py', KE + 'change.py', KX + 'kernelOperations.py', K + 'baseKernels.py'],
  [('to_kernel', KE + 'commutatives.py'), ('ChangeKE.to_kernel', KE + 'change.py'), ('base_str_to_ker', KX + 'kernelOperations.py'), ('to_kernel_unrefined', KE + 'base.py')])

p('C07', 'Fitted parameters are attributed to the right occurrence in the expression',
  'After a fit every node of the expression records, for each of its base kernels and each change operator, exactly the parameter values its own occurrence in the fitted covariance has, also when kernels of the same kind repeat among siblings or on both sides of a change. '
  'The one variance of the base factors of a product is recorded for the product itself, and every free parameter of the fitted covariance is attributed exactly once.',
  ['inputs', 'configurations'], 'for every expression of the stated shapes (with repeated siblings) and every assignment of parameter values',
  'Tests print matched parameters for inspection; distinct values per occurrence are never compared, and wrong attribution needs repeated kinds of siblings.',
  [KE + 'commutative_base.py', KE + 'commutatives.py', KE + 'change.py', KX + 'kernelOperations.py'],
  [('match_up_fit_parameters', KE + 'commutative_base.py'), ('ChangeKE.match_up_fit_parameters', KE + 'change.py'), ('get_param_dict, fit_ker_to_kex_with_params', KX + 'kernelOperations.py')])

p('C08', 'The sum-of-products form equals the fitted covariance',
  'The canonical sum-of-products form derived from a fitted model, read as a sum of products of base kernels, change windows and one scale each, is the same covariance function as the fitted kernel for every pair of input points. '
  'Each of its components is a pure product with one overall variance and no base term is left outside a product.',
  ['inputs', 'configurations'], 'for every expression of the stated shapes and every assignment of fitted parameter values, off and on the diagonal',
  'Tests only check the shape of the form for two expressions; the equality is over all parameter values and inputs.',
  [KE + 'commutatives.py', KE + 'change.py'],
  [('sum_of_prods_form, new_bases_with_parameters, simplify_base_terms_params, multiply_pure_prods_with_params', KE + 'commutatives.py'), ('add_sum_of_prods_terms', KE + 'change.py')])

p('C09', 'Described change intervals are the exact intersection of the change windows',
  'For a component carrying any collection of change-point and change-window factors, the region the description says it applies to is exactly the set of inputs lying in all of the corresponding half-lines, windows and window complements. '
  'Each stated interval starts before it ends, each stated bound carries the slope of the change it comes from, and touching, nested, disjoint or empty cases are described without error.',
  ['inputs', 'configurations'], 'for every collection of up to four change factors of the four kinds and every real location and every positive width',
  'Tests feed four literal parameter sets; the region depends on the relative order of up to eight boundaries.',
  [KX + 'kernelInterpretation.py'],
  [('sigmoids_to_intervals, simplify_sigmoidal_intervals, intersect_*', KX + 'kernelInterpretation.py')])

p('C10', 'Interpretation text states the facts of every fitted component',
  'Describing a fitted model never fails and produces one sentence per component of its sum-of-products form, stating its kind, its overall variance, and the exact periods, lengthscales, polynomial order and roots, change intervals and (when slopes are fitted) slopes of that component, with periodic factors listed by decreasing period. '
  'No factor of the component is omitted and no number that is not a parameter of the component is stated.',
  ['inputs', 'configurations'], 'for every product of base kernels and change factors within the stated sizes and every assignment of parameter values, under each setting of the offset and slope flags',
  'Text is only printed in tests; correctness depends on the parameter values and on which factors are combined.',
  [KX + 'kernelInterpretation.py', KE + 'base.py', M + 'model.py'],
  [('base_factors_interpretation, first_term_interpretation, postmodifier_interpretation', KX + 'kernelInterpretation.py'), ('get_interpretation', KE + 'base.py')])

p('C11', 'Sigmoidal gates are bounded, monotone where due and complementary',
  'The change-point gate increases from 0 to 1 with value one half at its location, the change-window gate lies between 0 and 1, is symmetric around the middle of the window and reaches exactly 1 there, and each reversed gate is one minus the plain one. '
  'This holds for every location, positive slope and positive width.',
  ['inputs'], 'for every real input, location, positive slope and positive width',
  'There is no automatic test of the gates; the plots in the repository show one parameter setting.',
  [K + 'sigmoidalKernels.py'],
  [('_phi_S, _phi_SI, _sigmoid_function', K + 'sigmoidalKernels.py')])

p('C12', 'Training gradients are the exact derivatives of the covariance',
  'For each base, periodic, linear and sigmoidal kernel, the parameter gradients used in training equal the derivative of the contracted covariance with respect to that parameter, for square and for rectangular input sets and for every weighting of the covariance entries (symmetric on a square input set, as in training). '
  'The gradient a change kernel passes to each of its two sides is that of the covariance it evaluates.',
  ['inputs', 'configurations'], 'for every parameter value, every pair of input sets of the stated sizes and every weight matrix (the periodic kernel outside its documented infinite-lengthscale limit, and up to its polynomial Bessel approximation at short lengthscales; the location, slope and width of change kernels use a documented approximation and are not claimed)',
  'The tests contain no gradient check at all; optimisers hide wrong gradients behind poor fits.',
  [K + 'linearKernel.py', K + 'linearOffsetKernel.py', K + 'periodicKernel.py', K + 'sigmoidalKernels.py', K + 'changeOperators.py'],
  [('update_gradients_full', K + 'sigmoidalKernels.py'), ('update_gradients_full', K + 'periodicKernel.py'), ('update_gradients_full', K + 'linearOffsetKernel.py')])

p('C13', 'Every kernel is a valid covariance',
  'For all parameter values within their constraints each kernel gives a symmetric covariance, equal whether or not the second input set is spelled out, whose diagonal shortcut equals the actual diagonal, which never makes a variance negative or a covariance exceed the bound the two variances impose. '
  'This includes change kernels over other kernels.',
  ['inputs', 'configurations'], 'for every parameter assignment and every pair of input points',
  'No test evaluates kernels; validity is universally quantified over parameters and inputs.',
  [K + 'linearKernel.py', K + 'linearOffsetKernel.py', K + 'periodicKernel.py', K + 'sigmoidalKernels.py', K + 'changeOperators.py'],
  [('K, Kdiag', K + 'periodicKernel.py'), ('K, Kdiag', K + 'changeOperators.py')])

p('C14', 'Change kernels gate their own two fitted sides with their own parameters',
  'A change-point (window) kernel evaluates to first side times the reversed gate plus second side times the gate, using the current values of its own location, slope and width and of the very parameters it exposes for its two sides. '
  'Changing any exposed parameter is reflected in the covariance, and the training gradients it receives reach the exposed parameters.',
  ['inputs', 'configurations'], 'for every value of location, slope, width and side parameters, every pair of input points, and sequences of parameter updates',
  'No test evaluates a change kernel after a parameter change.',
  [K + 'changeOperators.py', K + 'changeWindowShiftedSides.py', K + 'changeWindowThreePart.py'],
  [('ChangeKernelBase.K / parameters_changed / update_gradients_full', K + 'changeOperators.py')])

p('C15', 'A search returns every fitted model, each once, correctly ranked and grouped',
  'The model search returns all models it fitted in one list sorted by the chosen criterion, and the same models grouped by round, each round sorted; each model carries its own value of that criterion and the expression it was fitted with. '
  'The first round fits exactly the start kernels, and each later one exactly the not yet tested expansions, under the chosen rules, of the best models not expanded before.',
  ['inputs', 'histories'], 'for every assignment of scores to models (ties included), every overlap between expansions and every number of rounds and beam within the stated bounds',
  'The stable tests never run a search; ranking and bookkeeping must hold for every order of scores.',
  [M + 'modelSearch.py', M + 'model.py'],
  [('explore_model_space, model_search_rounds', M + 'modelSearch.py')],
  ['the five returned lists'])

p('C16', 'No expression is fitted twice and the beam bookkeeping partitions the models',
  'Over a whole search no kernel expression equal to an already tested one is ever submitted for fitting, and the list of tested expressions is exactly those submitted, in order. '
  'After every round the expanded and not-yet-expanded models are disjoint, together are all fitted models, the not-yet-expanded ones are in ranking order, and the models expanded in a round are exactly the best not-yet-expanded ones up to the beam.',
  ['inputs', 'histories'], 'for every assignment of scores, every expansion graph over the stated pool of expressions, every beam and number of rounds within the bounds',
  'The stable tests never run a search.',
  [M + 'modelSearch.py', U + 'genericUtil.py'],
  [('model_search_rounds', M + 'modelSearch.py'), ('unique, diff', U + 'genericUtil.py')])

p('C17', 'Fit failures are retried up to the limit and then surface',
  'When fitting a model raises, the fit is attempted again with the same data, kernel, restarts and optimiser up to the given number of retries, warning each time; the first success is returned at once. '
  'If all attempts fail the last error is raised, and no attempt is made beyond one plus the number of retries.',
  ['fault_sequences', 'inputs'], 'for every pattern of failing and succeeding attempts and every retry limit within the bound',
  'Failures depend on numerical accidents and cannot be provoked by the tests.',
  [M + 'modelSearch.py'], [('fit_one_model', M + 'modelSearch.py')])

p('C18', 'Continuing a search equals having run it longer',
  'Running a search for some rounds and continuing it from its five outputs for more rounds gives the same ranked models, tested models and expressions, expanded and unexpanded lists as one search with the total number of rounds and the concatenated beams. '
  'This holds whether progress output is on or off, which never changes or breaks a search.',
  ['histories', 'inputs'], 'for every split of the rounds, every assignment of scores and every expansion graph within the bounds',
  'Continuation is offered by the API but no test performs it.',
  [M + 'modelSearch.py'], [('model_search_rounds', M + 'modelSearch.py'), ('print_k_list', M + 'modelSearch.py')])

p('C19', 'Model criteria equal their formulas on the fitted model',
  'BIC, AIC and AICc equal their textbook formulas in log-likelihood, number of data points and number of free parameters (lower is better, so each decreases in the log-likelihood). '
  'The leave-one-out criterion is the mean of the leave-one-out values of the fitted model itself. '
  'Scoring a model passes its own log-likelihood, number of data points and number of optimised parameters to the chosen criterion and records the value together with the name of that criterion.',
  ['inputs'], 'for every log-likelihood, number of points and number of parameters (AICc where its denominator is not zero)',
  'No test computes a criterion.',
  [U + 'modelUtil.py', M + 'model.py'], [('BIC, AIC, AICc', U + 'modelUtil.py'), ('compute_utility', M + 'model.py')])

p('C20', 'Beam arguments are normalised as documented',
  'An integer beam applies to every round; a list shorter than the number of rounds is extended by repeating its last value and a longer one is cut; anything else is rejected with a type error. '
  'The number of models expanded in each round is the beam value of that round, or all available ones if fewer, and the caller\'s list is not modified.',
  ['inputs'], 'for every integer, every list of integers up to the stated length and every number of rounds within the bounds',
  'No stable test runs a search.',
  [M + 'modelSearch.py'], [('explore_model_space', M + 'modelSearch.py')])

p('C21', 'List fitters fit every expression once, in order, with the given settings',
  'The serial and the parallel list fitter both return one fitted model per given kernel expression, in the given order, each fitted to the given data with the given restarts, optimiser and retry limit, whatever the number of expressions and processors. '
  'An empty list gives an empty result.',
  ['inputs', 'schedules'], 'for every list length and processor count within the bounds and every order in which the pool completes its chunks',
  'The stable tests never use the fitters; chunk arithmetic depends on the number of processors.',
  [M + 'modelSearch.py'], [('fit_mods_not_parallel, fit_mods_parallel_processes', M + 'modelSearch.py')])

p('C22', 'List utilities meet their documented contracts',
  'For any elements compared by equality: removing duplicates keeps exactly the first occurrence of each element in order; equality up to order, multiset difference, partitioning, grouping, chunking, flattening, dictionary merging and interval overlap return what their descriptions say. '
  'Topological sorting returns every node once with dependencies first, and reports an error exactly when the dependencies are cyclic or missing; no utility modifies its input except the documented dictionary update.',
  ['inputs'], 'for every list up to the stated length and every pattern of equality among the elements, every dependency graph up to the stated size and every real interval',
  'Only one duplicate-removal example is tested.',
  [U + 'genericUtil.py'], [('unique, eq_elems, diff, partition, group_by, chunk, topological_sort, foldq, update_dict_with, interval_overlap', U + 'genericUtil.py')])

p('C23', 'Predictions return the labelled quantities of the underlying fitted model',
  'Predicting at new inputs returns mean, covariance, low and high quantile entries that are the fitted model\'s own mean, (co)variance and the two requested quantiles, with all optional arguments forwarded unchanged to the matching computation. ',
  ['inputs'], 'for every data, quantile pair, option combination and underlying prediction',
  'No stable test predicts.',
  [M + 'model.py'], [('GPModel.predict', M + 'model.py')])

p('C24', 'A model always describes its latest fit and never alters its kernel expression',
  'The sum-of-products form and interpretation of a model correspond to the parameters of its most recent fit, repeated calls give the same answer, and asking before any fit is an error. '
  'Fitting without a number of restarts reuses the previous one (an error if there was none), and neither fitting nor describing modifies the model\'s kernel expression or data.',
  ['histories', 'inputs'], 'for every sequence of fit, describe and score calls up to the stated length and every fitted parameter value',
  'No stable test fits a model, and the fault needs a particular order of calls.',
  [M + 'model.py'], [('GPModel.fit, sum_of_prods_kex, interpret', M + 'model.py')])

p('C25', 'Stationarity and base-kernel queries are exact',
  'An expression is reported stationary exactly when no linear kernel and no change operator occurs anywhere in it, and reported to contain a base kernel (or any of a list) exactly when one occurs with positive multiplicity anywhere in it, including as the lone side of a change expression.',
  ['inputs'], 'for every expression tree of the stated shapes with arbitrary base-kernel multiplicities and every set of queried kernels',
  'Tests ask for one literal expression.',
  [KE + 'commutative_base.py', KE + 'change.py'], [('is_stationary, contains_base', KE + 'commutative_base.py'), ('contains_base', KE + 'change.py')])

p('C26', 'Synthetic change-point and change-window data follow their piecewise definition',
  'The generated signal equals the first function before the change point and the second from it on, or the second between the window bounds inclusive and the first outside, scaled by the signal weight, plus independent noise scaled by the noise weight. '
  'With lining-up requested the pieces are shifted vertically so that the signal is continuous at each change.',
  ['inputs'], 'for every input value, every change location and window, all piecewise function values and all weights, with the noise as an arbitrary input',
  'No test calls the generators.',
  [U + 'dataAndPlottingUtil.py'], [('cp_f_maker, cw_f_maker, generate_changepoint_data, generate_changewindow_data', U + 'dataAndPlottingUtil.py')])

p('C27', 'Default search optimality: the fitted optimum is the best of the restarts',
  'The parameters a fit ends with are those with the highest log-likelihood among its random restarts, and that log-likelihood is the exact Gaussian-process marginal likelihood of the data under the expression.',
  ['inputs'], 'for every data set and every kernel expression',
  'Depends on numerical optimisation of arbitrary data.',
  [M + 'model.py'], [('GPModel.fit', M + 'model.py')])

p('C28', 'Traversing and folding an expression reaches every node exactly once',
  'Traversing an expression returns it and every sum, product and change below it exactly once, as the very objects of the tree and each before its operands, with the lone base-kernel side of a change standing in as a one-term sum; every visited node knows its parent and the root. '
  'Folding a function over an expression applies it to exactly those nodes in that order, starting from the given value, and neither operation alters the expression.',
  ['inputs'], 'for every expression tree of the stated shapes with arbitrary base-kernel multiplicities and every folding weight and starting value',
  'Tests fold and traverse one literal expression.',
  [KE + 'commutative_base.py', KE + 'change.py'], [('traverse, reduce', KE + 'commutative_base.py'), ('ChangeKE.traverse, ChangeKE.reduce', KE + 'change.py')])

p('C29', 'A one-off fit is one scored fit of the given expression to the given data with the given settings',
  'Fitting a single kernel expression directly returns a model of that (initialised) expression, fitted exactly once to the given inputs and outputs, arranged as columns when one-dimensional, with the given number of restarts, optimiser and further options. '
  'The model is scored with the given criterion, BIC unless another is given, on that very fit, and the data of the caller are left alone. The variant for a ready-made covariance fits that covariance in the same way and prints the criterion and log-likelihood of that fit.',
  ['inputs', 'configurations'], 'for every data set, number of restarts, option, log-likelihood and expression within the bounds',
  'No test calls the one-off fitting function.',
  [U + 'modelUtil.py', M + 'model.py'], [('fit_kex', U + 'modelUtil.py'), ('GPModel.fit, compute_utility', M + 'model.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
