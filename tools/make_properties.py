"""Writes properties.jsonl (kept as a script so that the statements are readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['quantificationlib/' + f for f in files],
                          mechanism=[dict(name=n, where='quantificationlib/' + w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where='quantificationlib/' + w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)


TESTS = ('The 17 tests run each method on one data set (iris, a synthetic binary set or ESL) with fixed seeds and accept '
         'any answer whose mean error is below a loose threshold (0.02 to 0.21)')

p('C01', 'Every quantifier returns a valid prevalence vector',
  'Whatever quantification method is used and whatever training set, predictions and test bag it is given (including '
  'bags with a single example, bags of a single class, ties, extreme or identical predictions), the estimate has '
  'exactly one finite entry per training class, in sorted class order, every entry lies in [0, 1] and the entries sum '
  'to one up to solver precision.',
  ['inputs', 'configurations'],
  'All quantifier classes x their options (distance, bins, strategy, ...) x 2 to 5 classes x training sets x bags of '
  '1 to some dozens of examples.',
  TESTS + '; none of them looks at degenerate bags, non-default options or more than 3 (nominal) classes.',
  ['baselines/cc.py', 'baselines/ac.py', 'binary/debias.py', 'binary/emd.py', 'binary/quantiles.py',
   'multiclass/em.py', 'multiclass/df.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'multiclass/knn.py',
   'multiclass/regression.py', 'ordinal/ac_ordinal.py', 'ordinal/pdf.py', 'decomposition/multiclass.py',
   'decomposition/ordinal.py', 'ensembles/eoq.py', 'optimization.py', 'search.py'],
  [('clipping and normalisation of the adjusted count', 'baselines/ac.py'),
   ('simplex constraints of the optimisation problems', 'optimization.py'),
   ('normalisation of the decomposed estimates', 'decomposition/multiclass.py')])

p('C02', 'Classify-and-count methods report exact counts',
  'Classify & count returns exactly the fraction of test examples assigned to each training class, and probabilistic '
  'classify & count exactly the mean predicted probability of each class. This holds for every accepted form of the '
  'predictions (a fitted estimator, crisp labels, a one-dimensional or one-column vector of positive-class '
  'probabilities where 0.5 or more is positive, an n x classes probability matrix where the first most probable class '
  'wins; the probabilistic method takes the matrix), for arbitrary class labels and for classes nobody is assigned to.',
  ['inputs', 'configurations'],
  'Label sets, prediction forms, bag sizes 1..n, probability matrices including ties and exact 0/1.',
  TESTS + '; only n x classes matrices with labels 0..k-1 are ever passed.',
  ['baselines/cc.py', 'base.py'],
  [('count per class', 'baselines/cc.py:CC.predict'), ('mean of probabilities', 'baselines/cc.py:PCC.predict'),
   ('conversion of probabilities into crisp labels', 'base.py:UsingClassifiers')])

p('C03', 'Adjusted-count methods invert the training confusion matrix',
  'The adjusted count (crisp, probabilistic and nearest-neighbour based) corrects the observed class counts with the '
  'misclassification rates measured on the training predictions: whenever the observed counts are an exact mixture of '
  'the per-class training rates and those rates are linearly independent, the mixture proportions are recovered; in '
  'the binary case the result is the clipped rate correction, and otherwise it is the projection on the valid '
  'prevalences documented for the chosen distance.',
  ['inputs', 'configurations'],
  'Confusion matrices (well conditioned, ill conditioned, singular), class counts, distances L1/L2/HD, 2 to 5 classes, '
  'mixture proportions including zeros.',
  TESTS + '; the exact algebraic relation is never checked and singular confusion matrices never occur.',
  ['baselines/ac.py', 'multiclass/knn.py', 'ordinal/ac_ordinal.py', 'optimization.py'],
  [('confusion matrix and rates', 'baselines/ac.py'), ('inversion or constrained optimisation', 'baselines/ac.py'),
   ('weighted nearest neighbours predictions', 'multiclass/knn.py')])

p('C04', 'Distribution-matching methods return the best mixture',
  'The methods that represent classes by histograms, parametric curves or threshold counts (the feature- and '
  'prediction-based histogram methods, Friedman-style, and the ordinal ones) return prevalences that no other valid '
  'prevalence vector beats, beyond solver tolerance, on the documented distance between the mixture of the class '
  'representations and the representation of the test bag. In particular, when the test bag is an exact mixture of '
  'the training classes, those mixture proportions attain the reported optimum.',
  ['inputs', 'configurations'],
  'Methods x distances (L1, L2, HD, EMD) x bin counts x binning strategies x PDF/CDF x data; competitors: simplex '
  'vertices, grids and random points, and the optimum of an independent solver.',
  TESTS + '; a sub-optimal answer that is close on average passes, and most options are never exercised.',
  ['multiclass/df.py', 'multiclass/friedman.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py', 'optimization.py'],
  [('distribution of the train classes and of the bag', 'multiclass/df.py'),
   ('L1/L2/HD minimisation on the simplex', 'optimization.py'),
   ('earth mover distance optimisation', 'ordinal/pdf.py')])

p('C05', 'Energy-distance methods minimise the energy distance',
  'The methods based on the energy distance (on features, on predictions and on prediction ranks) return the prevalences that minimise, '
  'over all valid prevalence vectors, the energy distance between the class mixture and the test bag for the pairwise '
  'distance the method documents or the user supplies. The answer depends on the data only through those pairwise '
  'distances.',
  ['inputs', 'configurations'],
  'Data sets with ties and unbalanced classes, 2 to 5 classes, Manhattan/Euclidean/user supplied distances.',
  TESTS + '; the objective is never evaluated.',
  ['multiclass/energy.py', 'optimization.py'],
  [('average distances and quadratic program', 'optimization.py:compute_ed_param_train/test, solve_ed'),
   ('features, predictions or rankings', 'multiclass/energy.py')])

p('C06', 'Search-based binary methods find the global minimum',
  'For every loss that is continuous in the prevalence, the one-dimensional search used by the binary methods returns, within its '
  'tolerance, a prevalence whose loss is not worse than the best one on a fine grid of [0, 1], also when the loss has '
  'several local minima or the minimum is at 0 or at 1 (a loss that is flat on the whole scan is refused with an error). The quantile, sample-ordinal and histogram based binary '
  'methods therefore return the minimiser of their documented distance.',
  ['inputs', 'configurations'],
  'Losses: random piecewise-linear and multi-modal functions, and the real losses of the methods on random data; '
  'tolerances; number of quantiles and bins.',
  TESTS + '; a single-minimum loss with the minimum inside the interval is all they meet.',
  ['search.py', 'binary/quantiles.py', 'binary/emd.py', 'multiclass/df.py'],
  [('coarse grid plus golden section search', 'search.py:global_search'),
   ('mixture quantiles', 'search.py:compute_quantiles'), ('weights and SORD distance', 'search.py')])

p('C07', 'Expectation-maximisation returns the maximum-likelihood prevalences',
  'The estimate of the expectation-maximisation quantifier is a fixed point (within its stopping tolerance) of the '
  'documented update that re-weights the posteriors by the ratio of new to training priors, starting from the '
  'training prevalences, and never has a lower likelihood than the training prevalences. When it stops at the '
  'iteration limit it returns the iterate reached, and it never modifies the predictions it is given.',
  ['inputs', 'configurations'],
  'Posterior matrices (including exact zeros and one-hot rows), training priors, tolerance and iteration limits, 2-5 classes.',
  TESTS + '; they cannot tell one more or one fewer re-weighting factor from noise.',
  ['multiclass/em.py'], [('iteration', 'multiclass/em.py:EM.predict')])

p('C08', 'Predictions do not depend on what was computed before',
  'For a fitted quantifier, the estimate for a bag is a function of the training data and of that bag only: predicting '
  'other bags before, in any order and any number of times, predicting the same bag again, re-fitting the same object '
  'or fitting other quantifiers that share estimators, does not change it. No method modifies the arrays it is given, '
  'and an estimator that was already fitted is used as it is, never re-trained.',
  ['histories', 'inputs', 'configurations'],
  'Sequences of fit/predict calls over several quantifiers, training sets and bags, compared with a fresh object that '
  'only sees the last fit and that bag.',
  'The tests call fit once and predict on similar bags in one fixed order; warm starts, cached mixtures and shared '
  'estimators are never compared with a fresh run.',
  ['base.py', 'multiclass/df.py', 'multiclass/friedman.py', 'baselines/ac.py', 'ordinal/pdf.py',
   'binary/quantiles.py', 'multiclass/regression.py', 'ensembles/eoq.py', 'decomposition/ordinal.py'],
  [('problem_ kept between bags for warm start', 'optimization.py'), ('precomputed mixtures', 'binary/quantiles.py'),
   ('already fitted test', 'base.py:UsingClassifiers.fit')])

p('C09', 'Estimates ignore row order and depend on proportions only',
  'Shuffling the examples of the test bag does not change the estimate beyond numerical precision, and neither does '
  'repeating the whole test bag any number of times (except for the method based on pooled ranks); for the methods that do not draw training bags, shuffling the '
  'training examples (with their labels and predictions) does not change it either.',
  ['inputs', 'configurations'],
  'All deterministic quantifiers x data x permutations x repetition factors.',
  'No test compares two orders of the same data.',
  ['baselines/cc.py', 'baselines/ac.py', 'multiclass/df.py', 'multiclass/energy.py', 'multiclass/friedman.py',
   'binary/quantiles.py', 'binary/emd.py', 'multiclass/em.py', 'ordinal/pdf.py', 'search.py'],
  [('class masks and sums', 'multiclass/df.py'), ('sorted predictions', 'binary/emd.py')])

p('C10', 'Class names carry no information',
  'Renaming the class labels by any order-preserving map (integers with gaps, negative numbers, strings) leaves every '
  'estimate unchanged, and for the nominal methods with a closed form or a convex objective any permutation of the class '
  'names permutes the estimate the same way.',
  ['inputs', 'configurations'],
  'All quantifiers x label maps (order preserving; arbitrary permutations for nominal methods) x data.',
  'The tests only use labels 0..k-1, or 1..k in ordinal tests.',
  ['base.py', 'baselines/ac.py', 'multiclass/df.py', 'multiclass/energy.py', 'binary/emd.py', 'search.py',
   'decomposition/multiclass.py', 'decomposition/ordinal.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py'],
  [('indexing by sorted labels', 'base.py'), ('labels of the union of distributions', 'binary/emd.py')])

p('C11', 'Estimators and precomputed predictions are interchangeable',
  'Giving a quantifier the predictions of an estimator on the training set and on the test bag yields the same '
  'estimate as giving it the estimator itself, fitted beforehand or left to be fitted by the quantifier; given both, '
  'the explicit predictions win. Two quantifiers that share estimators see the same predictions as quantifiers with '
  'their own copies.',
  ['inputs', 'configurations', 'histories'],
  'All classifier-based quantifiers x estimators (probabilistic and crisp) x data x combinations of fitted/unfitted/absent.',
  'The tests always pass the predictions explicitly and never compare both routes.',
  ['base.py', 'baselines/cc.py', 'multiclass/df.py', 'binary/emd.py', 'multiclass/em.py'],
  [('fit when not fitted, predict or copy predictions', 'base.py:UsingClassifiers.fit/predict')])

p('C12', 'Bag generators deliver exactly what they report',
  'In every generated bag the reported prevalences are the true class proportions of the selected examples, all '
  'indexes are valid, bag size and number of bags are the requested ones, minimum prevalences are respected to the '
  'nearest whole example, and bags drawn for prior shift vary only the class proportions while covariate-shift bags '
  'favour the neighbourhood of a centre example. The same seed always gives the same bags, whatever the state of the '
  'global random generator, which is never touched, and asking again returns the same bags.',
  ['inputs', 'configurations', 'histories'],
  'Generators x methods (uniform, Dirichlet) x class counts x bag sizes x minimum prevalences x alphas x seeds x '
  'states of the global generator.',
  'The tests consume generated bags but never verify them against the labels, and never draw Dirichlet bags.',
  ['bag_generator.py'],
  [('Kraemer sampling', 'bag_generator.py:_generate_uniform'), ('Dirichlet sampling', 'bag_generator.py:_generate_dirichlet'),
   ('RBF similarity sampling', 'bag_generator.py:CovariateShift_BagGenerator')])

p('C13', 'Bad arguments are refused with an exception, never a hang or a wrong answer',
  'Invalid or contradictory requests (unknown distance, binning, solver, method or decomposition name, missing '
  'estimator and predictions, non-binary data for binary methods, infeasible minimum prevalences, malformed random '
  'states, prevalence vectors of different length or with undefined entries, predictions that are undefined, empty or '
  'do not match the examples or the classes, classifiers fitted for other classes than those of the training set) raise an error promptly instead of being '
  'answered, and every accepted request terminates.',
  ['inputs', 'configurations'],
  'Each validated parameter x random invalid values (around valid names and boundaries) x otherwise valid data.',
  'No test passes an invalid argument.',
  ['base.py', 'bag_generator.py', 'metrics/multiclass.py', 'metrics/binary.py', 'metrics/ordinal.py',
   'multiclass/df.py', 'multiclass/friedman.py', 'multiclass/regression.py', 'multiclass/energy.py',
   'baselines/ac.py', 'binary/quantiles.py', 'binary/emd.py', 'binary/debias.py', 'ordinal/pdf.py',
   'ordinal/ac_ordinal.py', 'ensembles/eoq.py', 'estimators/cross_validation.py'],
  [('argument validation', 'metrics/multiclass.py'), ('validation of min_prevalence', 'bag_generator.py'),
   ('validation of distances and strategies', 'multiclass/df.py')])

p('C14', 'Error measures follow their formulas and metric laws',
  'Every multiclass and binary error measure equals its published formula for all pairs of prevalence vectors (and the '
  'multiclass ones also for histograms, cumulative sums and quantiles, whose entries do not sum one); on prevalences it is '
  'non-negative (except the signed bias and the score, which are bounded as documented), is zero (one for scores) '
  'when the prediction equals the truth, is symmetric or satisfies the triangle inequality where the formula does, '
  'does not depend on a common class permutation, and stays finite for the smoothed measures when prevalences are 0 or 1.',
  ['inputs'],
  'Pairs/triples of prevalence vectors of length 2..48 with zeros, ones and extreme values, vectors of non-negative numbers, eps values.',
  'Only used as a yardstick (absolute error) in the tests; no value is ever verified.',
  ['metrics/multiclass.py', 'metrics/binary.py'],
  [('measures', 'metrics/multiclass.py'), ('binary measures', 'metrics/binary.py')])

p('C15', 'Ordinal error measures are earth mover distances',
  'The ordinal distance between two prevalence vectors is the minimal work needed to turn one into the other when '
  'classes are unit-spaced, its score is the documented normalisation in [0, 1] that gives 1 only to a perfect '
  'prediction and 0 only to the worst possible one, and the pairwise distances between rows agree with the individual ones.',
  ['inputs'],
  'Prevalence vectors of length 2..8 with zeros and ones; oracle: optimal transport by linear programming.',
  'No test touches the ordinal measures except as a mean.',
  ['metrics/ordinal.py'], [('cumulative differences', 'metrics/ordinal.py')])

p('C16', 'Histograms put each example in exactly one bin',
  'Bin limits cover the whole real line for every feature, class and strategy, are non-decreasing, and every example '
  'is counted in exactly one bin, so that each class or bag density has non-negative entries summing to one per '
  'feature (its cumulative version ends in one), with equal-width, equal-count and normal limits computed as '
  'documented and the same limits used for training classes and test bags.',
  ['inputs', 'configurations'],
  'Data with ties, constants, outliers beyond the training range; bins 1..20; all strategies; PDF and CDF.',
  'Only the default binning on well-behaved data is used in tests and never inspected.',
  ['multiclass/df.py'], [('limits of the bins', 'multiclass/df.py:compute_bincuts'),
                         ('densities', 'multiclass/df.py:DF')])

p('C17', 'Optimisation kernel solves what it says',
  'The solvers for mixture problems return a point of the simplex whose objective is not worse, beyond solver '
  'tolerance, than that of any other point, for first and for warm-started calls alike; positive-definiteness tests '
  'agree with the eigenvalues, the triangular factor reproduces the matrix, and the positive-definite repair returns '
  'a positive-definite matrix that leaves positive-definite input unchanged and is close to the input otherwise.',
  ['inputs', 'histories'],
  'Random, rank deficient, duplicated-column and badly scaled problems with 2..6 classes; sequences of warm starts; '
  'symmetric matrices of known spectrum, alone and plus an antisymmetric part.',
  'Exercised only through whole quantifiers on easy data.',
  ['optimization.py'], [('solvers', 'optimization.py:solve_l1/l2/hd/ed'), ('nearest_pd, is_pd, dpofa', 'optimization.py')])

p('C18', 'Ordinal decompositions combine their binary models as documented',
  'The Frank and Hall classifiers train one model per ordinal threshold on the grouped labels (lower classes against '
  'higher ones, or a tree of such models that splits at the best scored threshold, the first of them in case of a tie), and their class probabilities are the documented '
  'combination of the threshold probabilities: non-negative, summing to one for the monotone and tree versions, with '
  'crisp predictions equal to the most probable class, and with the probabilities of the lower groups made '
  'non-decreasing by the monotone version; the text of a tree names every class once, in order.',
  ['inputs', 'configurations'],
  'Ordinal data with 2..6 classes and arbitrary labels, random and scripted binary models, predefined and learned trees.',
  'Tests only check the end error of a quantifier on one data set.',
  ['estimators/frank_and_hall.py'],
  [('threshold models and their combination', 'estimators/frank_and_hall.py')])

p('C19', 'Pairwise decision graph gives the documented probabilities',
  'The ordinal directed acyclic graph classifier trains exactly one model for each pair of classes on the examples of that pair only, and '
  'its class probabilities are the products (full probability) or the winner path product along the graph, '
  'non-negative and consistent with its crisp predictions, for any number of classes and labels.',
  ['inputs', 'configurations'],
  '2..6 classes, arbitrary sorted labels, scripted pairwise models, both prediction modes.',
  'Tests only check the end error of a quantifier on one data set.',
  ['estimators/ordinal_ddag.py'], [('graph traversal', 'estimators/ordinal_ddag.py')])

p('C20', 'Cross-validated predictions are out-of-fold and complete',
  'Predicting the training set with the cross-validation estimator gives each training example, in the original order, '
  'the prediction of models that were not trained on that example (one per repetition, averaged or stacked in blocks '
  'as configured), while any other data set is predicted with the models of all folds, averaged or voted as '
  'configured (the first of the most voted classes), even if it shares rows with the training set. The estimator works with fixed splitters, integers and repeated splitters, for any probabilistic base model.',
  ['inputs', 'configurations'],
  'Data x splitters (KFold, StratifiedKFold, repeated, integers, predefined) x averaging options x recording base estimators.',
  'Tests use it once, with one splitter, and never check who predicted what.',
  ['estimators/cross_validation.py', 'base.py'],
  [('fold models', 'estimators/cross_validation.py:CV_estimator'), ('repeated labels', 'base.py:y_ext_')])

p('C21', 'Decomposition quantifiers aggregate their binary estimates as documented',
  'One-vs-rest and Frank-and-Hall quantification feed each binary quantifier with exactly the one-against-all or '
  'threshold relabelling of the training set and the matching binary predictions, and return the documented '
  'aggregation of the binary estimates (normalised shares; differences of monotone threshold prevalences), for any '
  'number of classes (three up for one-vs-rest, two up for Frank and Hall) and any labels.',
  ['inputs', 'configurations'],
  'Recording and real binary quantifiers x label sets x data x estimators given as models or as predictions.',
  'Tests only check the end error on one data set each.',
  ['decomposition/multiclass.py', 'decomposition/ordinal.py', 'estimators/frank_and_hall.py'],
  [('binary problems', 'decomposition/multiclass.py'), ('threshold problems', 'decomposition/ordinal.py')])

p('C22', 'Ensembles aggregate the members they are supposed to select',
  'An ensemble of quantifiers trains each member on its own bag, and its answer is the documented combination (mean, '
  'median or the whole set) of exactly the members that the chosen selection rule ranks best for the current test bag; the '
  'ensemble of classifiers keeps one independently trained model per bag and stacks their predictions member by member.',
  ['inputs', 'configurations', 'histories'],
  'Base quantifiers x selection rules x combination rules x number of members and percentages x data x bags.',
  'Tests check end error for a few rules; a wrong subset of members gives almost the same error.',
  ['ensembles/eoq.py', 'estimators/ensembles.py'],
  [('selection and combination', 'ensembles/eoq.py'), ('one model per bag', 'estimators/ensembles.py')])

p('C23', 'Regression quantifiers learn from the bags they generate',
  'The regression quantifiers build their training set from the generated bags, one row per bag holding the '
  'normalised histogram of that bag and its true prevalences, represent a test bag in exactly the same way, and '
  'return the normalised, non-negative output of one regressor per class (or one and its complement for two classes) '
  'without altering the regressor supplied by the user.',
  ['inputs', 'configurations', 'histories'],
  'Data x bins x strategies x bag sizes and counts x recording regressors; several quantifiers in one process.',
  'Tests run the default regressor with bags as large as the training set only.',
  ['multiclass/regression.py', 'bag_generator.py'],
  [('training set of distributions', 'multiclass/regression.py'), ('bags', 'bag_generator.py')])

p('C24', 'Proportion-weighted nearest neighbours follow the definition',
  'The proportion-weighted nearest-neighbour classifier gives each class the share of its k nearest training examples '
  'weighted by one minus the share of their class in the training set, normalised to one, predicts the class of largest '
  'share and agrees with a brute-force computation for any k, metric and labels.',
  ['inputs', 'configurations'],
  'Integer-grid data without distance ties at the boundary, k from 1 to n, metrics, unbalanced classes, labels.',
  'Tests check the end error of one quantifier with the default parameters.',
  ['estimators/weighted_knn.py', 'multiclass/knn.py'], [('weights', 'estimators/weighted_knn.py')])

p('C25', 'Bias correction of the DeBias method is the published one',
  'The binary bias-corrected method rescales the mean probability by the training moments exactly as published, '
  'clips to [0, 1], and is exact for calibrated probabilities under a change of the class proportions (the '
  'training set itself included).',
  ['inputs'],
  'Training labels/probabilities with non-zero variance ratio, bags, label sets.',
  TESTS + '.',
  ['binary/debias.py'], [('Vt_ and correction', 'binary/debias.py')])

p('C26', 'Loading, normalising and plotting keep the data',
  'Loading a comma separated file returns its feature columns and its label column unchanged, normalisation maps train and test '
  'with the statistics of the training part only, and the line and box plots draw exactly the given results without '
  'altering them.',
  ['inputs'],
  'Random tables, class columns, files; random result tables.',
  'No test loads data through the library or plots.',
  ['data_utils.py', 'plot/qlplot.py'], [('load_data, normalize', 'data_utils.py'), ('geometry', 'plot/qlplot.py')])

p('C27', 'Quantifiers and estimators survive copying, pickling and inspection',
  'A quantifier or estimator that is deep-copied or pickled, fitted or not, gives the same estimates as the original, and its '
  'parameters are kept as given, those not given take their documented default, and they can be listed, printed, set and cloned without error, a clone being unfitted and configured identically, and '
  'an object whose parameters are set later works like one built with them; bag generators can be copied too.',
  ['configurations', 'histories'],
  'All classes x random constructor options x fitted/unfitted.',
  'No test copies, prints or clones a quantifier; ensembles rely on deep copies.',
  ['base.py', 'multiclass/em.py', 'multiclass/energy.py', 'multiclass/knn.py', 'estimators/weighted_knn.py',
   'ensembles/eoq.py', 'decomposition/multiclass.py', 'ordinal/trees.py'],
  [('scikit-learn parameter conventions', 'base.py:BaseQuantifier')])

p('C28', 'Repeated cross-validation predictions are matched with the right labels',
  'When the training predictions contain several blocks (one per repetition of the cross-validation), every '
  'classifier-based quantifier pairs each block with the training labels in order: the estimate is that of the '
  'concatenated blocks with explicitly repeated labels (so identical blocks give the estimate of a single block when '
  'it is unique), each member of an ensemble gets its bag from every block, and a repeated cross-validation estimator '
  'supplies the blocks in that order.',
  ['inputs', 'configurations'],
  'All classifier-based quantifiers x 2..4 repetitions x data.',
  'The only test with repetitions averages them before they reach the quantifier.',
  ['base.py', 'multiclass/df.py', 'binary/emd.py', 'binary/quantiles.py', 'ordinal/pdf.py', 'multiclass/friedman.py',
   'multiclass/energy.py', 'baselines/ac.py', 'multiclass/em.py'],
  [('y_ext_', 'base.py:UsingClassifiers.fit')])

p('C29', 'Estimates do not depend on how the data are stored',
  'The same examples, labels, predictions or prevalences give the same estimates, bags, class probabilities and metric values '
  'however they are stored: matrices by rows or by columns, strided, reversed or read-only views, integer features, sparse '
  'features when the classifiers take them, and labels of any integer, real or text type, as arrays or as series whose index is '
  'not the position (matched by position); and nothing is ever written into the data of the user.',
  ['inputs', 'configurations'],
  'All quantifiers, generators, classifiers and metrics x random data x ways of storing each argument, against plain arrays.',
  'Tests only pass plain arrays.',
  ['base.py', 'ensembles/eoq.py', 'estimators/weighted_knn.py', 'bag_generator.py', 'metrics/multiclass.py', 'metrics/ordinal.py'],
  [('labels of the training predictions', 'base.py:UsingClassifiers.fit'), ('bags of labels', 'ensembles/eoq.py:EoQ.fit')])

p('C30', 'Fitted attributes describe the training set and the last bag as documented',
  'The documented attributes of a fitted quantifier are what their names say: the classes, the labels and predictions used, the '
  'confusion matrix, the training prevalences, the representation of each class, the averages of distances between classes and the '
  'training tables of the regressors are those of the training set, unchanged by asking for bags, and the predictions, representation '
  'and mixtures of the last query are those of its bag.',
  ['inputs', 'configurations', 'histories'],
  'Classifier-based and feature-based quantifiers x random data x blocks of predictions x sequences of bags.',
  'No test reads a fitted attribute.',
  ['baselines/ac.py', 'baselines/cc.py', 'multiclass/df.py', 'multiclass/em.py', 'multiclass/energy.py', 'multiclass/friedman.py',
   'multiclass/regression.py', 'multiclass/knn.py', 'binary/emd.py', 'binary/quantiles.py', 'binary/debias.py', 'ordinal/ac_ordinal.py'],
  [('K_ and train_distrib_', 'multiclass/energy.py'), ('train_distrib_', 'multiclass/df.py'), ('cm_', 'baselines/ac.py'),
   ('train_distrib_', 'multiclass/friedman.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
