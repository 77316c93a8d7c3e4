"""Hand-written parts of DESIGN.md (assembled by make_design.py)."""

INTRO = '''# Verification of quantificationlib by property-based testing and fuzzing

This file is assembled by `tools/make_design.py` from `tools/design_text.py`, `properties.jsonl`, the registered
sub-checks, `known_findings.json` and `seeded/`; edit those, not this file.

## Approach

quantificationlib estimates class prevalences.  Its guarantees are statements about *numbers computed from data*: an
estimate is a probability vector, it minimises a stated distance, it does not depend on row order, on history, on
storage or on names, an ensemble uses the members it says it uses.  The 17 tests of the library fix one data set and
one seed per method and accept a mean error under a loose threshold, so almost any wrong estimate of a plausible size
passes them.  All the properties are therefore decided by generated inputs against an explicit oracle:

* **reference models** written from the documentation and the papers, example by example, in plain Python/numpy
  (counts, confusion matrices, histograms, quantiles, EM steps, threshold models, pairwise graphs, bags);
* **independent optima**: linear programs (scipy HiGHS) for L1 and earth mover distances, enumeration of the supports of
  the simplex for quadratic problems (L2 and energy), multiplicative ascent from many starting points for Hellinger,
  fine grids for the one-dimensional searches.  The *objective value* is compared, not the argument, whenever the
  optimum may not be unique;
* **metamorphic relations**: shuffles, replications, renamed or permuted classes, other storage, copies, histories;
* **differential runs**: estimator route against predictions route, repeated blocks against explicit concatenation;
* **recording stand-ins**: base models, binary quantifiers and regressors that are deterministic functions of their
  training table, so that what they were trained on shows in what they answer.

Hypothesis 6 (in `vendor/`, because the interpreter of the library, `/opt/venv`, does not have it) generates the cases,
shrinks failures and writes the shrunk case to `replays/<ID>_<sub>.json`; `check.py --replay FILE` runs it again.

`python check.py ID` runs one property: its sub-checks are split over the cores in forked workers, each with its own
derived seed (`VERIF_SEED`), a case has its own time limit (a hang is a violation), the global random state is fixed
before every case.  The library is imported from `/repo` (or `VERIF_REPO`), nothing is copied, and nothing in the
library is instrumented: there are no hooks.  A case is *plain JSON* (numbers, strings, lists); the arrays are rebuilt
from it, which keeps replay files independent of the generator.  Each sub-check states in its `rule` when a case is
non-trivial; distinct non-trivial cases are counted by the hash of the case and reported, with samples, in
`evidence/<ID>.json`.

Soundness of the alarms: the library is run on valid inputs (as its documentation says) and compared with tolerances
that come from the solvers (ECOS about 1e-8 on the objective but only about 1e-5 on the Hellinger affinity, quadprog
1e-9, golden search `tol`); cases where floating point alone decides (a value on the edge of a bin, a tie of
neighbours, a degenerate optimum) are generated but only decided when all the readings agree.

Layers: `pbt/core.py` runner; `pbt/gen.py` generators of training sets, predictions, bags, labels; `pbt/zoo.py` every
quantifier with every option; `pbt/oracles.py`, `pbt/losses.py` independent optima and losses of each method;
`pbt/stubs.py` scripted and recording models; `checks/cNN.py` one module per property.

Other tools of this family were considered: atheris (coverage-guided, bytes) is of little use where inputs are numeric
tables and control flow hardly depends on values; the structured generators reach every line of the library that is not
behind `verbose` (see "Mutation testing").  The other families listed in the task are not used.

## Common generators

* **training sets** (`train_spec`): 2 to 5 classes (8 for metrics), 2 to about 40 examples per class with unequal sizes,
  1 to 3 features, rounded to few values (ties), scales 1e-3 to 1e3, classes overlapping, equal or separated, labels of
  several types (consecutive, negative, non-consecutive integers of several widths, strings, objects, booleans).
* **predictions** (`pred_spec`): class-conditional probability rows with one-hot rows, exact ties, uninformative rows,
  dyadic values (exact bin edges) and duplicated rows; several blocks for repeated cross-validation.
* **bags**: 1 to some dozens of examples, single-class bags, duplicates, examples of the training set, and bags built
  as exact mixtures of the training representation.
* **larger cases**: most sub-checks have a second run, `NAME_big`, with the same generator enlarged: every count of
  examples is multiplied by a drawn factor (8, 25 or 60), classes go up by four and features by five.  It finds what
  only shows with many examples, many classes or many attributes (narrow integer types, thresholds on sizes, indexes).
* **histories**: sequences of fits and predictions on one object, objects that share estimators, generators asked for
  several data sets.
'''

# how each property is decided, beyond the table of sub-checks
HOW = {
'C01': '''Oracle: the invariant itself (length, finiteness, range 0..1 with slack 1e-6, sum 1 within 1e-4 of solver precision),
for every class of quantifier in `zoo` x every option.  Documented refusals ("infinite minima" of a flat loss, all
estimates zero) are recognised by their message and do not count as answers.  A test cannot cover the product of 30
methods and degenerate bags; the defects found here (9fa59f5, 23c6955, 6ff6fa7, 479b4bd, 36c0562) needed bags with
a single example or classes with no mass.''',
'C02': '''Exact equality with counts made in Python.  Ties go to the first of the tied classes, 0.5 counts as positive in a
vector of positive probabilities: both are stated in the code and decided here, not sampled by a test.''',
'C03': '''Rates recomputed from labels and predictions; binary formula `(p - fpr) / (tpr - fpr)` clipped, uncorrected when the
rates differ by at most 0.001; with more classes the best value of the distance on the simplex by an independent solver
(HD by ascent, L1 by LP, L2 by support enumeration) and the linear solution when it lies inside.  `recover` needs no
solver: a bag that is an exact mixture must give the mixture.''',
'C04': '''Own histograms (bin membership example by example), own cumulative sums (DFy accumulates over all the descriptors in a
row, DFX per attribute), own optimum; value of the answer compared with the optimum (1e-5 for L1/L2, 2e-5 in affinity
for HD).  Warm starts are exercised by predicting several bags with one object.''',
'C05': '''The averages of pairwise distances are recomputed from the definition, the quadratic problem solved by enumerating
supports; the value is compared relative to the scale of the distances.''',
'C06': '''The search is one-dimensional, so the oracle is a grid finer than the one of the library plus the known centres of
the wells.  QUANTy drops up to 1e-4 of mass per slice and its loss has several minima, so it is compared with the grid
of 101 that the library documents.''',
'C07': '''EM iterates recomputed independently; the iterate returned must be the one at which the documented stopping rule
holds (all the iterates whose decision is within rounding are accepted); monotone likelihood; no better point found by a
grid, the vertices and perturbations.''',
'C08': '''Model: "a fresh object per answer".  Histories draw any order of bags, repeated bags, refits on other data with other
classes, objects sharing one classifier, with the global random generator in another state; inputs are hashed before
and after.''',
'C09': '''Metamorphic.  Replication is not required of CvMy (ranks of training and test together change by design) - see "False
alarms".''',
'C10': '''Metamorphic.  With several optima, the permuted answer must be as good for the loss of the method (from `losses.py`).''',
'C11': '''Scripted classifiers whose probabilities are functions of the features make the two routes comparable exactly; each
classifier counts how often it is fitted and with what.''',
'C12': '''All bags are recounted from the indexes; distributional claims (uniform on the simplex, Dirichlet, kernel width) are
tested within 7 standard errors with fixed seeds, so a false alarm has probability under 1e-11 per comparison.''',
'C13': '''Valid arguments are drawn, then exactly one is made invalid.  The oracle is "an exception within the time limit"; the
same object must work when the argument is corrected.  Only refusals the code or documentation announces (or scikit-learn
validation calls present in the code) are demanded.''',
'C14': '''Formulas recomputed in exact rationals where possible, and metric laws (identity, symmetry, triangle, bounds,
permutation).''',
'C15': '''Optimal transport by linear programming, plus laws.''',
'C16': '''Membership decided example by example with Python comparisons; edges that are equal up to rounding are decided only
when dyadic.''',
'C17': '''The kernel functions (`solve_l1`, `solve_l2`, `solve_hd`, `compute_*_param`, `nearest_pd`, `is_pd`, `dpofa`) are called directly;
spectra are constructed, so definiteness is known.''',
'C18': '''Threshold models are replaced by deterministic scripted models; the combination is recomputed from the papers (running
max/min average for the monotone version, products along the tree for the tree).''',
'C19': '''All path products are recomputed by dynamic programming over the decision graph; winner path by simulation.''',
'C20': '''Base models reveal which rows they were fitted on; a prediction for a training row must come from the folds that left it
out, for the same object, an equal copy and an equal-size other data set.''',
'C21': '''Binary problems rebuilt by hand for each class or threshold; arbitrary recorded binary quantifiers, so no correct estimate
can come from wrong training labels.''',
'C22': '''Members, histograms, distances of bags, selection and combination recomputed; ties between members are avoided by the
data or all accepted.''',
'C23': '''Regressors record their table; the table is recomputed from a fresh bag generator with the same seed.''',
'C24': '''Brute-force neighbours; examples whose k-th and (k+1)-th distances are within 1e-9 are not decided.''',
'C25': '''Closed formula recomputed independently; calibrated predictions must be corrected exactly.''',
'C26': '''Round trips through files written here; plots are inspected through the artists of an off-screen axis.''',
'C27': '''Copies (deepcopy, pickle, clone), fitted or not, against the original; parameters kept by identity; the table of
documented defaults is part of the check.''',
'C28': '''Blocks against an explicit concatenation.''',
'C29': '''The same numbers stored in another way (order, strides, read-only, dtype, containers, index of a series, sparse) must
give the estimate of plain arrays, and must be unchanged afterwards.''',
'C30': '''Every documented attribute is recomputed from the data given (scaling of confusion matrices left free, thresholds that
a rounding could cross not decided), after fit, and again after each bag.''',
}

FALSE_ALARMS = '''## False alarms met while building, and what was changed

* C09: replicating the rows was first demanded of CvMy; its ranks mix training and test examples, so the estimate may
  change.  Now only shuffles are demanded of it.
* C08 `interleaved`: crisp routes with exactly tied probabilities differ legitimately between `predict` and `argmax`;
  such bags are not compared.
* C06: QUANTy was compared with a grid of 401 points; the library documents a search started on 101, and the loss has
  several minima between grid points.  The comparison uses the 101 points.
* C06 `search_wells`: the generator made wells so narrow beside a wide one that no scan in steps of 0.01 can see them; a
  best well must now be the lowest one in two steps around its centre, other cases are discarded.
* C15/C25 `_big`: the precision of the linear program with 13 classes, and of a mean over 10^5 examples divided by a
  small Vt, exceeded the tolerances; these now depend on the size and on Vt.
* C16: binormal limits for classes without spread have no documented value; only monotonicity is demanded.
* C04/C17: the tolerance on Hellinger problems looked too strict; it turned out to be a real defect (80dfc0b, 9aa51ef: a
  stale warm start), and the tolerance stayed.
* C27/C28: CC and PCC predict without being fitted; HDX has no `verbose` parameter; Dirichlet bags need `alphas`;
  `None` stands for a default object in some constructors (bag generators) and the quantification tree wraps its
  estimator: the checks accept those as documented.
* C28: identical blocks are only compared with a single block for methods whose answer is unique.
* C17: triangular factors of 1x1 matrices of denormal size are outside the precision of the routine; scales were bounded.
* C22: `combination_strategy='all'` returns a dictionary.
* C17 `hd`: with one-hot columns and a bag that shares one bin with the classes, the interior point solver itself reports
  `optimal_inaccurate` and stops 2.4e-5 below the best affinity (the tolerance was 2e-5).  A gap of up to twenty times the
  tolerance is now accepted only when an independent formulation of the same problem is reported inaccurate as well.
* C12 `bags_big`: a case whose minimum prevalence accepts less than one random bag in 10^4 took minutes on a loaded
  machine and was reported as a hang.  Such cases are skipped, and the hang limit counts processor time.
* C29: neighbours at equal distance (PWK) may be reordered by a change of storage; those cases are not decided.
'''

LEFT = '''## Behaviour left alone

Observed, judged not to be a defect of a stated property, or not safely repairable, and not demanded by any check:

* PDFOrdinaly: a score may leave [1, k] by rounding (one example at the last edge).
* `_sort_rows_bycolumns` reverses its mutable default list; only ever called with one column.
* Crisp predictions given as a vector of real labels for a binary problem cannot be told from probabilities of the
  positive class, and are read as such; with three or more classes they are labels.
* OneVsRest and Frank and Hall quantifiers read the columns they need of a wider matrix of predictions.
* PWK, CvMy and CV_estimator keep the training arrays by reference; changing them after fit is outside the contract.
* EnsembleOfClassifiers and EoQ when a generated bag misses a class; refitting an ensemble with an already fitted
  classifier reuses it by design.
* EoQ with classifiers does not validate test data itself.
* Rejection sampling with a tight `min_prevalence` is slow; a scalar `alphas` is turned into an array.
* QUANTy fitted with a single class fails at predict (a refusal); CV_estimator with sparse features fails at predict.
* Lists or data frames for X are refused by some classes; integer labels of object type are refused by scikit-learn.
* PDFOrdinaly documents `distance='HD'` as default and DFy/DFX/REG an obsolete name for the default binning; the code
  says 'L2' and 'equal_width'.  The documentation is taken to be stale (the parameter works as given).
'''
