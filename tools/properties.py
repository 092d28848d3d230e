PF = 'flavio/statistics/probability.py'
NOT_CLAIMED = {}
ORACLE = {}

prop('C01', 'One-dimensional distributions are coherent probability laws',
     '''For every one-dimensional probability distribution and every admissible choice of its parameters, the log-density is that of
     the documented law (uniform, normal, asymmetric/half/log-normal, Gaussian and Gamma upper limits, counting experiments,
     tabulated and kernel-density shapes, discrete and point-like laws), is normalised to one over its domain and is minus infinity
     outside. Its cumulative distribution is the integral of that density and the quantile function its inverse, for numbers and for arrays.
     Parameters documented as invalid (non-positive widths, central value outside the range, confidence levels above one ...) are rejected.''',
     'every distribution class, all admissible parameter values over many orders of magnitude, evaluation points inside, at the edge of and outside the domain',
     'Existing tests evaluate a few distributions at a few round parameter values; signs, extreme scales, one-sided domains and array arguments are not covered.',
     [PF, 'flavio/math/functions.py'], [('density, CDF and quantiles per class', PF), ('normal_logpdf', 'flavio/math/functions.py')],
     observe=['logpdf, cdf, ppf, support, central_value of distributions'])

prop('C02', 'Quoted central values, errors and limits are recovered',
     '''A distribution built from quoted numbers gives them back: its central value is the quoted one (the mode where none is quoted), its
     n-sigma errors are the documented ones (n times the deviations, CL-fraction of a range, highest-density intervals for Gamma-like
     laws, central, limit or highest-density intervals of tabulated laws) for every n, and the probability below a quoted upper limit equals the quoted confidence level.
     The equivalent ways of specifying a counting experiment by two of total, background and signal counts give the same distribution.''',
     'all one-dimensional distributions, parameters over many decades, any number of standard deviations',
     'Tests check single textbook cases; asymmetric, negative, one-sided and low-count cases and non-integer numbers of sigmas are not sampled.',
     [PF, 'flavio/statistics/functions.py'], [('get_error_left/right', PF), ('upper-limit scale factors', PF)],
     observe=['error_left, error_right, get_error_left(nsigma), central_value, cdf at the limit'])

prop('C03', 'Random numbers follow their distribution',
     '''Random numbers drawn from any distribution, and parameter sets drawn from a collection of constraints, follow the stated
     distribution including all correlations, lie in its domain, and have the requested shape (a number or vector without a size, an array of that size otherwise).
     Independent constraints are drawn independently and every constrained parameter gets a value.''',
     'all distribution classes and collections of constraints, all admissible parameters, any random seed',
     'Tests draw from a few distributions without comparing the distribution of the draws; a wrong variance, a lost correlation or a truncated tail goes unnoticed.',
     [PF, 'flavio/classes.py'], [('get_random', PF), ('get_random_all', 'flavio/classes.py')],
     observe=['get_random, get_random_all, get_1d_errors_random'])

prop('C04', 'Multivariate distributions: density, input forms, ignored components',
     '''A multivariate normal given by covariance, by standard deviations and correlation (full, upper-triangular, a single number, or none)
     is the same distribution with the textbook density, and matrices that are not positive definite are rejected.
     A distribution tabulated on a grid takes the tabulated (normalised) values at the grid points, interpolates the log-density in between and vanishes outside.
     Ignoring components gives the marginal normal, or the profile of the table, for values, density differences and reduced copies.''',
     'dimension 2 to 5, standard deviations over 13 decades, correlations up to near-singular, all subsets of ignored components, any evaluation point',
     'Tests use two or three fixed matrices with similar scales; very different or tiny scales and combinations of ignored components are not sampled.',
     [PF], [('MultivariateNormalDistribution', PF), ('MultivariateNumericalDistribution', PF)],
     observe=['logpdf(x, exclude), delta_logpdf, reduce_dimension, covariance, correlation'])

prop('C05', 'Combining distributions multiplies their densities',
     '''The combination of several distributions of the same quantity has a density proportional to the product of the individual densities,
     whatever their type and order, with the mode of the product as central value; for (multivariate) normals it is the exact weighted average.
     A point-like distribution wins if it is compatible with the others, and contradictory or non-overlapping inputs are rejected.''',
     'lists of 2 to 4 distributions of mixed types and widths, univariate and multivariate, every order',
     'Tests combine two or three fixed distributions; mixed types, asymmetric supports, order and multivariate tables are not explored.',
     [PF], [('combine_distributions, weighted_average', PF)], observe=['combine_distributions, weighted_average'])

prop('C06', 'Convolving distributions adds up the uncertainties',
     '''The convolution of distributions is the distribution of the sum of their fluctuations: variances (covariances) add, and the shape is the convolution integral,
     whatever their type and order. The central value is the common one ("same", the default) or the sum of all ("sum"); point-like inputs add no uncertainty,
     normals give exact normals, and inputs with different central values (for "same") or dimensions, or an unknown mode, are rejected.''',
     'lists of 2 to 4 distributions of mixed types and widths within a factor of 30, univariate and multivariate, every order, both modes',
     'Tests convolve a few fixed normals; mixed types, off-centre tables, multivariate grids and array-valued central values are not explored.',
     [PF], [('convolve_distributions and helpers', PF)], observe=['convolve_distributions'])

prop('C07', 'Distributions survive writing out and reading back',
     '''Every distribution can be rebuilt from its keyword dictionary, from its dictionary with the distribution name (as plain lists, through JSON or YAML, once or repeatedly)
     and, if specified by numbers only, from its printed representation, with the same class, density, central value and errors.
     Writing it out does not change it, reading does not change the dictionary, numbers given as text are understood, and names and classes of distributions correspond one to one.''',
     'all distribution classes with all ways of specifying them, all admissible parameters',
     'Tests round-trip single instances of some classes; nested kernels, tables, event counts and repeated round trips are not covered.',
     [PF], [('get_dict, get_yaml, dict2dist, class_from_string, __repr__', PF)], observe=['get_dict, get_yaml, dict2dist, string_to_class'])

prop('C08', 'Numbers with uncertainties written as text mean what they say',
     '''A constraint written as text (number, bracketed errors in units of the last digit, plus-minus and asymmetric errors, times-by factors, ranges, upper limits at a
     confidence level, with optional powers of ten, parentheses, blanks and typographic symbols) is read as exactly the stated central value and list of uncertainties;
     in parameter files correlated groups get the total errors and the stated correlations. Text that is not fully understood raises an error and sets no constraint.''',
     'all texts generated by the documented notation and malformed variants of them; parameter files with correlated groups',
     'Tests parse a few literal strings; the grammar has thousands of combinations of notation, digits and exponents.',
     ['flavio/_parse_errors.py', 'flavio/classes.py', 'flavio/parameters.py', 'flavio/measurements.py'],
     [('constraints_from_string', 'flavio/_parse_errors.py'), ('set_constraint', 'flavio/classes.py'), ('read_file_values_correlated', 'flavio/parameters.py')],
     observe=['set_constraint(text), constraints_from_string, read_file_values(_correlated)'])

prop('C09', 'A collection of constraints reflects its history',
     '''After any sequence of setting, adding, replacing, removing, copying and writing to and reading from YAML, each parameter (or observable) of a collection is governed by
     the last constraint put on it and by nothing else: central values, errors, random values, and log-probabilities (total or single, relative or absolute, with any
     parameters excluded) are those of the surviving constraints, where members of a multivariate constraint that were replaced, removed or excluded are ignored in it.
     Copies are independent, metadata survives YAML, and rejected operations change nothing.''',
     'histories of up to 14 operations on parameter constraints, Wilson coefficient priors and measurements, any order, with re-used distribution objects',
     'Tests perform single operations; the interplay of overriding, removing, partially active multivariate constraints and serialisation is a property of histories.',
     ['flavio/classes.py'], [('add_constraint, remove_constraint, get_logprobability_all, get_yaml_dict, from_yaml_dict', 'flavio/classes.py')],
     over=('histories',), observe=['all_parameters, get_central_all, get_logprobability_all/single, get_1d_errors_rightleft, get_yaml'],
     state=[('constraints in a collection', 'ordered list of distributions with the parameters they apply to; the last one wins', 'flavio/classes.py')])


prop('C10', 'Measurement files are read, written and combined as they stand',
     '''A measurement read from a file in any of the documented notations (texts, distributions, lists with observable arguments, values with a correlation matrix given in full, as a triangle or as a number,
     multivariate distributions) constrains exactly the stated observables with the stated central values, errors and correlations and carries its metadata; written to a file and read again it is the same, and this
     holds for every measurement shipped with the package. Queries list the measurements of an observable, and the combined measurement of an observable is the normalised product of all selected, non-pseudo measurements.''',
     'files with up to four measurements in all notations, every shipped measurement, combinations of up to five overlapping measurements',
     'Tests read a few shipped measurements; asymmetric errors with correlations, triangular correlations, argument orders and round trips are not covered.',
     ['flavio/measurements.py', 'flavio/functions.py', 'flavio/classes.py', 'flavio/data/measurements.yml'],
     [('_load, read_file, write_file', 'flavio/measurements.py'), ('combine_measurements', 'flavio/functions.py'), ('get_measurements', 'flavio/classes.py')],
     observe=['read_file, write_file, Measurement queries, combine_measurements'])

prop('C11', 'A likelihood is the product of its measurements and constraints',
     '''The log-likelihood of a parameter point and set of Wilson coefficients is the sum of the log-densities of every selected measurement at the predictions of its
     observables plus those of the parameter constraints, where only the chosen observables and measurements count, pseudo-measurements only on request, and measurements
     involving only some of the chosen observables contribute with these. It depends only on the current point and current contents of the measurements, whatever was evaluated before,
     and survives being written to and read back from YAML.''',
     'sets of overlapping measurements, choices of observables and exclusions, histories of up to 12 evaluations and modifications with changing points, coefficients and options',
     'Tests evaluate single likelihoods once; caching, selection and serialisation errors depend on the history and on overlaps.',
     ['flavio/statistics/likelihood.py', 'flavio/classes.py'],
     [('MeasurementLikelihood, ParameterLikelihood, Likelihood', 'flavio/statistics/likelihood.py')],
     over=('histories', 'inputs'), observe=['log_likelihood, log_likelihood_par, dump, load'],
     state=[('cached predictions', 'predictions of the last parameter point', 'flavio/statistics/likelihood.py')])

prop('C12', 'Covariances and the Gaussian fast likelihood are correct',
     '''The Standard Model covariance of a list of observables is that of their predictions under the parameter uncertainties (with parameters optionally held fixed), and the experimental covariance and
     averages are those of the combined measurements, in the requested order and whichever way observables are specified, computed by one or several processes. The fast likelihood built from them is the Gaussian with the sum of both covariances
     plus the constraints of the explicitly varied parameters; saved covariances give the same likelihood when loaded again.''',
     'linear toy observables with exactly known covariances, random correlated measurements, subsets and orders of observables and parameters, new-physics coefficients',
     'Tests build one fast likelihood with two observables; ordering, subset loading and partially overlapping measurements are not covered.',
     ['flavio/statistics/likelihood.py', 'flavio/functions.py'],
     [('SMCovariance, MeasurementCovariance, FastLikelihood', 'flavio/statistics/likelihood.py'), ('sm_covariance', 'flavio/functions.py')],
     observe=['SMCovariance, MeasurementCovariance, FastLikelihood.log_likelihood, sm_covariance'])

prop('C13', 'Theory uncertainties and parameter dependence are those of the predictions',
     '''The theory uncertainty of an observable is the standard deviation of its predictions when the parameters fluctuate according to their constraints, in the Standard Model or with new physics;
     error budgets give for each parameter (or each given group of parameters) the uncertainty due to that parameter alone, as a fraction of the central prediction.
     The reported set of parameters an observable depends on is exactly the set that prediction looks up: other parameters never change it.''',
     'toy observables with known moments, all registered observables with random perturbations of parameters, any parameter distributions',
     'Tests check the size of a few uncertainties; error budgets and dependences of nearly all observables are unchecked.',
     ['flavio/functions.py', 'flavio/classes.py'], [('sm_uncertainty, np_uncertainty, sm_error_budget, get_dependent_parameters_sm', 'flavio/functions.py')],
     observe=['sm_uncertainty, np_uncertainty, sm_error_budget, get_dependent_parameters_sm'])

prop('C14', 'Named objects, observable specifications and configuration mean one thing',
     '''Parameters, observables, measurements and auxiliary quantities are identified by name: the last one created under a name is the one found, and deleting and searching behave like a dictionary. An observable with its
     arguments can be written as text, tuple, list or dictionary interchangeably, and an observable defined as a function of others predicts that function of their predictions. An auxiliary quantity is always computed by the
     configured implementation, and a configuration change takes effect immediately and completely, whatever was evaluated before.''',
     'histories of up to 20 registry operations, observables with up to 4 arguments, functions of up to 4 observables, histories of configuration changes for toy and real quantities',
     'Tests use single instances; stale caches after configuration changes and argument order errors need a history or several arguments to show up.',
     ['flavio/classes.py', 'flavio/config.py', 'flavio/data/config.yml', 'flavio/io/instanceio.py'],
     [('NamedInstanceClass, Observable.argument_format, from_function, AuxiliaryQuantity, Implementation', 'flavio/classes.py')],
     over=('histories', 'inputs', 'configurations'), observe=['argument_format, from_function, prediction, taxonomy_dict, config'],
     state=[('named instances', 'one per name, the last created', 'flavio/classes.py'), ('config', 'implementation of each quantity and scales', 'flavio/config.py')])

prop('C15', 'Statistical conversions and numerical helpers are accurate',
     '''Conversions between numbers of standard deviations, confidence levels, delta chi-squared, pulls and p-values are those of the normal and chi-squared distributions and inverse to each other for any
     number of degrees of freedom, however significant. Special functions and the normal density agree with their definition for numbers and arrays; integrals have the requested accuracy,
     the sign of their end points and complex values. Robust minimisation and maximisation find the optimum of regular functions of one or more variables, continue from where an unsuccessful try stopped,
     and leave the starting point untouched.''',
     'up to 25 sigmas and 200 degrees of freedom, arguments of special functions, smooth integrands and end points in any order, quadratic and banana-shaped functions with 1 to 4 variables',
     'Tests check three textbook numbers; extreme significances, exchanged end points, extra arguments and restarts are not exercised.',
     ['flavio/statistics/functions.py', 'flavio/math/functions.py', 'flavio/math/integrate.py', 'flavio/math/optimize.py'],
     [('delta_chi2, pull, pvalue, confidence_level', 'flavio/statistics/functions.py'), ('minimize_robust', 'flavio/math/optimize.py'),
      ('nintegrate, nintegrate_fast, nintegrate_complex', 'flavio/math/integrate.py')],
     observe=['return values of the functions'])

prop('C16', 'YAML includes and the list of papers to cite are exact',
     '''Loading a YAML document with included files gives the document with the contents of these files in place (relative to the including file, or absolute), lists of files merged in order, and keys in the order
     of the file; relative includes in a plain string are rejected. The list of papers to cite contains exactly the initial ones and those registered since, can be cleared, reset, and collected separately in nested scopes.
     The papers for the prediction of an observable are the same whenever and however often it was evaluated before, and a prediction adds exactly these.''',
     'trees of files up to 3 levels deep in several folders, histories of registrations and scopes, all observables with cold and warm caches',
     'Tests include one file from one file and look at two observables once; what is skipped when results come from a cache only shows in a history.',
     ['flavio/io/yaml.py', 'flavio/citations.py', 'flavio/classes.py'],
     [('SafeIncludeLoader', 'flavio/io/yaml.py'), ('Citations, CitationScope', 'flavio/citations.py'), ('theory_citations', 'flavio/classes.py')],
     over=('inputs', 'histories'), observe=['load_include, flavio.citations, theory_citations'],
     state=[('registered citations', 'set of papers', 'flavio/citations.py')])

prop('C17', 'Wilson coefficients are those set, translated and run as requested',
     '''A set of new-physics Wilson coefficients returns at its initial scale and basis exactly the values that were set and zero for all others of the requested sector, and at other scales, effective theories and bases
     the linearly evolved values for the current CKM parameters, whatever was evaluated, set or configured before and without modifying what the user passed in. Without new physics all are zero.
     The total coefficients of rare decays are Standard Model plus new physics in the documented normalisation.''',
     'coefficients of all sectors of the three low-energy theories in two bases, pairs of scales, legacy and current sector names, histories of predictions at changing CKM parameters and options',
     'Tests set one coefficient at one scale; combinations of sector names, theories and histories with one set of coefficients are not covered.',
     ['flavio/physics/eft.py', 'flavio/physics/bdecays/wilsoncoefficients.py', 'flavio/physics/common.py'],
     [('WilsonCoefficients', 'flavio/physics/eft.py'), ('wctot_dict, get_wceff*', 'flavio/physics/bdecays/wilsoncoefficients.py')],
     over=('inputs', 'histories'), observe=['WilsonCoefficients.get_wc, get_wcxf, from_wilson; wctot_dict; get_wceff*'],
     state=[('cached evolution', 'results for the current coefficients, options and CKM parameters', 'flavio/physics/eft.py')])

prop('C18', 'The CKM matrix is the same in all parametrisations',
     '''Whichever of the four parametrisations is configured, the quark mixing matrix is the unitary matrix in the standard phase convention with the defining elements and angles, the three unitarity-triangle angles
     are those of this matrix, products of its elements follow their definition for all quark flavours, and reversing the CP-odd parameters gives the complex conjugate matrix.
     Only the parameters of the configured parametrisation matter, and changing it takes effect immediately.''',
     'mixing angles over one to two decades, phases in the first quadrant and their conjugates, all parametrisations, histories of configuration changes',
     'Tests compare two parametrisations at one point; conjugate points, angles and other orderings of elements are not covered.',
     ['flavio/physics/ckm.py', 'flavio/physics/common.py'], [('get_ckm, xi, get_ckmangle_*', 'flavio/physics/ckm.py'), ('conjugate_par', 'flavio/physics/common.py')],
     over=('inputs', 'configurations'), observe=['get_ckm, xi, get_ckmangle_alpha/beta/gamma, tree_to_wolfenstein, conjugate_par'])

prop('C19', 'Couplings and masses run as QCD and QED prescribe',
     '''The strong and electromagnetic couplings and the quark masses return their input values at their input scale and satisfy the renormalisation group equations for the requested (or automatic) number of flavours
     with continuous matching at the thresholds; masses in other schemes follow the known perturbative relations. Evolving coefficients solves their evolution equation across thresholds in both directions,
     and the common kinematic, dictionary, unit and element helpers follow their definitions.''',
     'couplings and masses within many standard deviations, scales from 1 to 1000 GeV, 3 to 6 flavours, all quark flavours, random anomalous dimensions',
     'Tests compare single values at one scale with loose tolerance; other flavour numbers, directions of running and scales are not covered.',
     ['flavio/physics/running/running.py', 'flavio/physics/running/masses.py', 'flavio/physics/running/betafunctions.py', 'flavio/physics/common.py', 'flavio/physics/units.py',
      'flavio/physics/elements.py'],
     [('get_alpha*, get_m*, get_wilson, get_f_perp', 'flavio/physics/running/running.py'), ('mKS2mMS, mMS2mKS', 'flavio/physics/running/masses.py')],
     observe=['return values of the functions'])

prop('C20', 'Every observable has a finite real prediction',
     '''Every registered observable (except those needing parton distributions) evaluates without error to a single finite real number at every parameter point drawn from the parameter
     uncertainties, for every argument inside its kinematic range, in the Standard Model and for arbitrary real or complex new-physics coefficients.''',
     'all 1900+ observables, random parameter points, arguments throughout phase space, random Wilson coefficients in all sectors',
     'Tests evaluate a minority of the observables, mostly at central parameters with one or no Wilson coefficient.',
     ['flavio/classes.py', 'flavio/physics/__init__.py'], [('Prediction.get_par', 'flavio/classes.py'), ('all modules of flavio/physics', 'flavio/physics/__init__.py')],
     over=('inputs', 'configurations'), observe=['Observable.prediction_par'])

prop('C21', 'Predictions are pure functions and tend to the Standard Model',
     '''The prediction of an observable depends only on the parameters, the Wilson coefficients and its arguments: it does not change when evaluated again, in another order, after other
     evaluations or with cold caches, and evaluating it does not modify the parameters.
     Without new physics (none given, an empty set, coefficients that are all zero) it is the Standard Model prediction, which is approached continuously for tiny coefficients.''',
     'all observables, parameter points, coefficients; histories of evaluations with warm and cold caches',
     'Tests evaluate observables once in a fresh state; caches keyed on too little, leaked state and SM-subtraction errors depend on the history.',
     ['flavio/classes.py', 'flavio/physics/eft.py', 'flavio/functions.py', 'flavio/physics/running/running.py'],
     [('prediction functions and caches of flavio/physics', 'flavio/physics/eft.py'), ('sm_prediction', 'flavio/functions.py')],
     over=('inputs', 'histories'), observe=['Observable.prediction_par, sm_prediction'],
     state=[('memoised running and matching', 'caches must be keyed on everything the cached value depends on', 'flavio/physics/running/running.py')])

prop('C22', 'Binned and total predictions are integrals of the differential ones',
     '''Rates in bins add up: the bin-averaged rate over adjacent bins is the width-weighted mean, the total rate is the rate integrated over the whole phase space, and a bin that shrinks approaches the differential observable.
     Normalised bin observables (asymmetries, angular and isospin observables, ratios) are ratios of integrals, not integrals of ratios, and merge accordingly.
     Helicity and angular bins (angles, polarisations, Dalitz variables) integrate to the same total rate.''',
     'all binned and differential observables of B, Bs, Bc, Lambda_b and D decays, random bins, parameter points and Wilson coefficients',
     'Tests look at few bins with few significant digits; the agreement of the three separately coded forms of the same quantity everywhere is not covered.',
     ['flavio/physics/bdecays', 'flavio/physics/ddecays', 'flavio/math/integrate.py'],
     [('nintegrate and the bin functions of all decay modules', 'flavio/math/integrate.py'), ('bxll, bvll, bpll, bvlnu, lambdab', 'flavio/physics/bdecays')],
     observe=['Observable.prediction_par of <X>, X(q2), BR'])

prop('C23', 'Outside the phase space rates vanish',
     '''Rates and differential observables at arguments outside of the kinematically allowed region are exactly zero and never raise an exception, negative or complex value;
     bins extending beyond it only count the part inside. Rates inside are not negative.''',
     'all observables with an argument, q2 below, above and far from the limits, bins across both limits, random masses and Wilson coefficients',
     'Tests almost never leave the phase space; the behaviour there matters for plots and for bins of measurements reaching the endpoint.',
     ['flavio/physics/bdecays', 'flavio/physics/ddecays'],
     [('guards for q2 in all semileptonic decay modules', 'flavio/physics/bdecays')],
     observe=['Observable.prediction_par'])

prop('C25', 'Forbidden processes vanish and physical bounds are respected',
     '''Lepton flavour violating observables are exactly zero in the Standard Model and for coefficients that conserve lepton flavour, and not zero otherwise.
     Rates, branching ratios and ratios of rates are never negative; polarisation fractions lie between 0 and 1, and asymmetries and optimised angular observables respect their bounds,
     for any parameters and any new physics.''',
     'all rates, ratios, asymmetries, polarisations and lepton flavour violating observables; parameter points and coefficients',
     'Tests check few forbidden modes for one coefficient; a wrong interference term or normalisation shows up as a negative rate or a violated bound only for some coefficients.',
     ['flavio/physics'], [('all decay modules', 'flavio/physics/bdecays'), ('quarkonium decays', 'flavio/physics/quarkonium')],
     observe=['Observable.prediction_par'])

prop('C26', 'Rates are Hermitian forms of the coefficients, phases unphysical',
     '''Rates, and asymmetries times the rate they are normalised to, are quadratic functions of the new-physics coefficients, and the quadratic part does not change when all coefficients of the amplitude are multiplied by a common phase.
     No observable depends on the phases of the lepton fields.''',
     'all rates and observables normalised to rates; all observables for the lepton phases; parameter points, arguments, complex coefficients',
     'Missing complex conjugations, wrong powers and interference of terms that cannot interfere are invisible for the single real coefficients used in tests.',
     ['flavio/physics'], [('all decay modules', 'flavio/physics/bdecays')], observe=['Observable.prediction_par'])

prop('C27', 'CP conjugation flips CP asymmetries and nothing else',
     '''Conjugating the CKM matrix and all new-physics coefficients leaves CP-averaged observables unchanged, reverses the sign of CP asymmetries, CP-odd mixing observables and electric dipole moments,
     and exchanges charge-conjugate final states. Without CP-violating phases all CP asymmetries are zero.''',
     'all observables that are CP-averaged, CP-odd or for which the conjugate final state is available; parameter points, arguments, complex coefficients',
     'Tests compare a few CP asymmetries with literature values; phases missing in one contribution of the conjugate amplitude show up only with both weak and strong phases.',
     ['flavio/physics', 'flavio/physics/common.py'], [('conjugate_par, conjugate_wc and their uses', 'flavio/physics/common.py')], observe=['Observable.prediction_par'])

prop('C24', 'Composite observables equal their definition in terms of others',
     '''Observables defined through other observables are exactly that combination at every parameter point, argument and set of coefficients: lepton-averaged modes, lepton-universality ratios and differences,
     polarisation fractions, sums over helicities and charges, normalised bins, ratios of different modes, effective lifetimes, Z-pole ratios and asymmetries.
     Higgs signal strengths factorise into production and decay.''',
     'about 600 composite observables, parameter points, arguments, random complex coefficients that distinguish the components',
     'Composites are coded separately from their components; tests rarely compare both at the same parameter point and with new physics in only one component.',
     ['flavio/physics'], [('all decay modules', 'flavio/physics/bdecays'), ('zdecays', 'flavio/physics/zdecays'), ('quarkonium', 'flavio/physics/quarkonium')],
     observe=['Observable.prediction_par'])

prop('C28', 'Angular distributions follow from the squared decay amplitude',
     '''Differential, binned and total rates, polarisations and angular observables of decays of B, D and K mesons to a pseudoscalar or vector meson and two leptons equal those obtained from the squared amplitude of the weak effective Lagrangian,
     for all vector, scalar and tensor Wilson coefficients, lepton masses and lepton flavours, including lepton flavour violation and time-integrated Bs decays with mixing.''',
     'about 500 observables of 30 decays, parameter points, q2/angles/bins, random complex coefficients',
     'The formulas are long expressions in helicity amplitudes; tests sample a few points mostly in the Standard Model, where scalar, tensor, right-handed and lepton-mass terms vanish or are tiny.',
     ['flavio/physics/bdecays/angular.py', 'flavio/physics/bdecays/bvlnu.py', 'flavio/physics/bdecays/bplnu.py', 'flavio/physics/bdecays/bvll', 'flavio/physics/bdecays/bpll.py', 'flavio/physics/ddecays/dplnu.py', 'flavio/physics/kdecays/kpilnu.py'],
     [('helicity amplitudes and angular coefficients', 'flavio/physics/bdecays/angular.py'), ('bvlnu', 'flavio/physics/bdecays/bvlnu.py'), ('bvll', 'flavio/physics/bdecays/bvll'), ('bpll_lfv', 'flavio/physics/bdecays/bpll_lfv.py')],
     observe=['Observable.prediction_par'])
