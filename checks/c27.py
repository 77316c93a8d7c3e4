"""C27 copying, pickling, cloning, setting parameters and printing."""
import contextlib
import copy
import inspect
import io
import pickle

import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from sklearn.metrics.pairwise import euclidean_distances, manhattan_distances
from sklearn.model_selection import RepeatedStratifiedKFold
from sklearn.naive_bayes import GaussianNB

from pbt import zoo
from pbt.core import sub
from pbt.gen import (ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels, pred_spec,
                     train_spec)
from pbt.stubs import Scripted
from quantificationlib.bag_generator import (CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator,
                                             PriorShift_BagGenerator)
from quantificationlib.baselines.cc import PCC
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FHLabelBinarizer, FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.estimators.weighted_knn import PWK
from quantificationlib.metrics.binary import binary_kld
from quantificationlib.metrics.multiclass import l2
from quantificationlib.ordinal.trees import OrdinalQuantificationTree

COPIES = {'deepcopy': copy.deepcopy, 'pickle': lambda q: pickle.loads(pickle.dumps(q))}


def ask(f):
    """The answer, or a name for the two documented refusals that depend on the data."""
    try:
        return np.array(f(), dtype=float)
    except ValueError as e:
        if 'infinite minima' in str(e):
            return 'flat'
        if 'predict 0' in str(e) or 'predicted a prevalence' in str(e):
            return 'zero'
        raise


def same(a, b, tol, msg):
    if isinstance(a, str) or isinstance(b, str):
        check(isinstance(a, str) and isinstance(b, str), '%s: %s and %s', msg, a, b)
    else:
        close(a, b, tol, msg)


def simple(v):
    return v is None or isinstance(v, (bool, int, float, str))


def listed(q, given, msg):
    """get_params gives back what the constructor was given."""
    p = q.get_params(deep=False)
    for n, v in given.items():
        check(n in p, '%s: parameter %s is not listed', msg, n)
        check(p[n] is v or (simple(v) and p[n] == v), '%s: parameter %s is %s instead of %s', msg, n, p[n], v)
    q.get_params(deep=True)
    return p


def like(a, b, msg):
    """Parameters of two objects agree, recursively for objects with parameters."""
    pa, pb = a.get_params(deep=False), b.get_params(deep=False)
    check(sorted(pa) == sorted(pb), '%s: parameters %s and %s', msg, sorted(pa), sorted(pb))
    for n in pa:
        u, v = pa[n], pb[n]
        if simple(u) or callable(u):
            check(u is v or u == v, '%s: parameter %s is %s and %s', msg, n, u, v)
        else:
            check(type(u) is type(v), '%s: parameter %s is of type %s and %s', msg, n, type(u), type(v))
            if hasattr(u, 'get_params'):
                like(u, v, '%s, %s' % (msg, n))


def printed(q, msg):
    for f in (repr, str):
        out = f(q)
        check(isinstance(out, str) and type(q).__name__ in out, '%s: %s gives %s', msg, f.__name__, out)


@st.composite
def cases(draw):
    y_based = draw(st.booleans())
    if y_based:
        ps = draw(pred_spec(2, 4, 3, 12))
        q = draw(zoo.y_spec(ps['k'], glm=False))
    else:
        ps = draw(train_spec(2, 4, 4, 12))
        q = draw(zoo.x_spec(ps['k']))
    k = ps['k']
    return dict(ps=ps, y=y_based, q=q, kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(k)), bag2=draw(bag_counts(k)),
                seed=draw(SEED), how=draw(st.sampled_from(sorted(COPIES))), verbose=draw(st.sampled_from([0, 0, 1, 2])))


@sub('C27', 'quantifiers', cases, quick=700, big=43,
     rule='every quantifier x options: copied or pickled before fitting, after fitting and after predicting; cloned; built with default '
          'parameters and then set; printed; asked to be verbose: all give the estimates of the original, which is not changed; '
          'non-trivial always')
def quantifiers(c):
    build_data = (lambda: build_preds(c['ps'], c['kind'])) if c['y'] else (lambda: build_train(c['ps'], c['kind']))
    D, y = build_data()
    bag = bag_preds if c['y'] else build_bag
    T, U = bag(c['ps'], c['bag'], c['seed'])[0], bag(c['ps'], c['bag2'], c['seed'] ^ 5)[0]
    spec = c['q']
    msg = zoo.label(spec)

    def fit(q):
        return zoo.fit_on(q, spec, None if c['y'] else D, y, D if c['y'] else None)

    def pred(q, B):
        return ask(lambda: zoo.predict(q, spec, B, B))
    dup = COPIES[c['how']]
    ref = fit(zoo.build(spec))
    want = [pred(ref, B) for B in (T, U)]
    # before fitting
    q = zoo.build(spec)
    listed(q, {n: v for n, v in spec[1].items() if n not in ('base', 'reg', 'n_bags', 'bag_size', 'seed', 'min_prevalence', 'distance')}, msg)
    printed(q, msg)
    raw = dup(q)
    like(q, raw, msg + ' copied unfitted')
    same(pred(fit(raw), T), want[0], 1e-7, msg + ', copied (%s) before fitting' % c['how'])
    # after fitting
    fit(q)
    one = dup(q)
    same(pred(one, T), want[0], 1e-7, msg + ', copied (%s) after fitting' % c['how'])
    same(pred(q, T), want[0], 1e-7, msg + ', after having been copied (%s)' % c['how'])
    # after predicting
    two = dup(q)
    like(q, two, msg + ' copied after predicting')
    same(pred(two, U), want[1], 1e-5, msg + ', copied (%s) after predicting' % c['how'])
    same(pred(q, U), want[1], 1e-5, msg + ', after having been copied twice (%s)' % c['how'])
    printed(q, msg)
    # copies are independent
    D2 = D[::-1] if c['y'] else D[::-1] * 2 + 1
    zoo.fit_on(two, spec, None if c['y'] else D2, y, D2 if c['y'] else None)
    same(pred(q, T), want[0], 1e-5, msg + ', after fitting a copy (%s) with other data' % c['how'])
    # clone
    new = clone(q)
    check(type(new) is type(q), '%s: clone of type %s', msg, type(new))
    like(q, new, msg + ' cloned')
    check(getattr(new, 'classes_', None) is None, '%s: the clone is fitted', msg)
    try:
        zoo.predict(new, spec, T, T)
    except Exception:
        pass
    else:          # counting needs no training
        check(spec[0] in ('CC', 'PCC'), '%s: the clone predicts without being fitted', msg)
    same(pred(fit(new), T), want[0], 1e-7, msg + ', cloned')
    # set_params on the object of another configuration, and on the cloned object itself
    again = zoo.build(spec)
    again.set_params(**again.get_params(deep=False))
    same(pred(fit(again), T), want[0], 1e-7, msg + ', parameters set to themselves')
    params = zoo.build(spec).get_params(deep=False)
    late = type(q)(**{n: params[n] for n in ('base_quantifier', 'quantifier') if n in params})
    got = late.set_params(**{n: v for n, v in params.items() if n in late.get_params(deep=False)})
    check(got is late, '%s: set_params does not return the object', msg)
    same(pred(fit(late), T), want[0], 1e-7, msg + ', built with defaults and then set')
    # verbose
    if c['verbose']:
        loud = zoo.build(spec)
        loud.verbose = c['verbose']          # some of the classes do not take it in the constructor
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            fit(loud)
            got = pred(loud, T)
        same(got, want[0], 1e-7, msg + ', verbose')
    return '%s %s' % (msg, c['how'])


GENERATORS = {'prior': PriorShift_BagGenerator, 'covariate': CovariateShift_BagGenerator, 'both': PriorAndCovariateShift_BagGenerator}


@st.composite
def generator_cases(draw):
    which = draw(st.sampled_from(sorted(GENERATORS)))
    p = dict(n_bags=draw(st.integers(1, 6)), bag_size=draw(st.sampled_from([None, 5, 20])), random_state=draw(st.one_of(st.integers(0, 2 ** 31), st.just('obj'))))
    if which != 'covariate':
        p['method'] = draw(st.sampled_from(['Uniform', 'Dirichlet']))
        p['min_prevalence'] = draw(st.sampled_from([None, 0.05, 0.2])) if p['method'] == 'Uniform' else None
        p['alphas'] = draw(st.sampled_from([1.0, 0.5])) if p['method'] == 'Dirichlet' else None
    return dict(ts=draw(train_spec(2, 4, 3, 10)), which=which, p=p, kind=draw(st.sampled_from(ANY_LABELS)),
                how=draw(st.sampled_from(sorted(COPIES))), stage=draw(st.integers(0, 2)), seed=draw(SEED), verbose=draw(st.booleans()))


@sub('C27', 'generators', generator_cases, quick=600,
     rule='bag generators copied or pickled, before and after drawing bags: the copies draw (or repeat) the same bags as the original; '
          'non-trivial with two or more bags')
def generators(c):
    X, y = build_train(c['ts'], c['kind'])
    p = dict(c['p'])
    if p['random_state'] == 'obj':
        p['random_state'] = np.random.RandomState(c['seed'])
    g = GENERATORS[c['which']](**p)
    if c['verbose']:
        g.verbose = 1
    dup = COPIES[c['how']]
    with contextlib.redirect_stdout(io.StringIO()):
        if c['stage'] == 1:
            g.generate_bags(X, y)
        elif c['stage'] == 2:
            g.generate_bags(X[::-1] + 1, y[::-1])
        h = dup(g)
        a, b = g.generate_bags(X, y), h.generate_bags(X, y)
    msg = 'bags of a copy (%s) of %s' % (c['how'], c['which'])
    close(b[0], a[0], 0, msg + ', prevalences')
    check(np.array_equal(a[1], b[1]), '%s: other examples', msg)
    check(np.shape(a[1])[1] == p['n_bags'], '%s: %d bags', msg, np.shape(a[1])[1])
    return p['n_bags'] > 1 and '%s %s %d' % (c['which'], c['how'], c['stage'])


def bases(name):
    return {'scripted': lambda: Scripted(gain=1.5), 'lr': lambda: LogisticRegression(C=0.5), 'nb': lambda: GaussianNB(var_smoothing=1e-3)}[name]()


# name -> constructor from the base model, and the parameters given besides the model
ESTIMATORS = {
    'cv': lambda b: CV_estimator(b, cv=2, averaged_predictions=True, voting='soft'),
    'cv repeated': lambda b: CV_estimator(b, cv=RepeatedStratifiedKFold(n_splits=2, n_repeats=2, random_state=3), averaged_predictions=False),
    'cv default': lambda b: CV_estimator(b),
    'fh': lambda b: FrankAndHallClassifier(b),
    'fh monotone': lambda b: FrankAndHallMonotoneClassifier(b),
    'fh tree': lambda b: FrankAndHallTreeClassifier(b),
    'ddag': lambda b: DDAGClassifier(b),
    'ddag winner': lambda b: DDAGClassifier(b, predict_method='winner_node'),
    'pwk': lambda b: PWK(n_neighbors=3, p=1),
    'pwk default': lambda b: PWK(),
    'cv of fh': lambda b: CV_estimator(FrankAndHallMonotoneClassifier(b), cv=2),
    'fh of cv': lambda b: FrankAndHallTreeClassifier(CV_estimator(b, cv=2)),
    'ensemble': lambda b: EnsembleOfClassifiers(b),
    'ensemble of fh': lambda b: EnsembleOfClassifiers(FrankAndHallClassifier(b)),
}
NEEDS = {'estimator': 1, 'base_estimator': 1}


@st.composite
def estimator_cases(draw):
    return dict(ts=draw(train_spec(2, 4, 5, 10)), which=draw(st.sampled_from(sorted(ESTIMATORS))), base=draw(st.sampled_from(['scripted', 'lr', 'nb'])),
                kind=draw(st.sampled_from(ANY_LABELS)), how=draw(st.sampled_from(sorted(COPIES))), seed=draw(SEED),
                bag=draw(st.integers(1, 4)), verbose=draw(st.sampled_from([0, 0, 1])))


@sub('C27', 'estimators', estimator_cases, quick=500,
     rule='cross-validation, Frank-and-Hall, decision graph, weighted neighbours and ensemble estimators over three kinds of models: '
          'copied or pickled before and after fitting, cloned, set, printed, verbose; the same predictions as the original for the '
          'training data and for other data; non-trivial always')
def estimators(c):
    X, y = build_train(dict(c['ts'], scale=1.0), c['kind'])
    k = c['ts']['k']
    T, _ = build_bag(dict(c['ts'], scale=1.0), [c['bag']] * k, c['seed'])
    msg = '%s of %s' % (c['which'], c['base'])
    r = np.random.RandomState(c['seed'])
    first = np.array([r.choice(np.where(y == v)[0], 3) for v in np.unique(y)])
    bags = np.vstack([first, r.randint(0, len(y), (10, 3)), first])

    def build():
        return ESTIMATORS[c['which']](bases(c['base']))

    def fit(e):
        return e.fit(X, y, bags) if c['which'].startswith('ensemble') else e.fit(X, y)

    def answers(e, *sets):
        out = []
        for S in sets:
            out.append(np.asarray(e.predict_proba(S), dtype=float))
            p = np.asarray(e.predict(S))
            out.append(np.searchsorted(np.unique(y), p) if p.dtype.kind in 'US' else np.asarray(p, dtype=float))
        return out

    def agree(e, ref, what, *sets):
        for a, b in zip(answers(e, *sets), ref):
            close(a, b, 1e-9, '%s, %s' % (msg, what))
    dup = COPIES[c['how']]
    want = answers(fit(build()), X, T)
    e = build()
    printed(e, msg)
    raw = dup(e)
    like(e, raw, msg + ' copied')
    agree(fit(raw), want, 'copied (%s) before fitting' % c['how'], X, T)
    fit(e)
    one = dup(e)
    agree(one, want, 'copied (%s) after fitting' % c['how'], X, T)
    agree(e, want, 'after having been copied', X, T)
    printed(e, msg)
    if 'tree' in c['which']:
        check(isinstance(str(e.tree_), str) and str(e.tree_), '%s: the tree cannot be printed', msg)
        check(str(one.tree_) == str(e.tree_), '%s: the tree of the copy is other: %s and %s', msg, one.tree_, e.tree_)
    two = dup(e)
    agree(two, want[2:], 'copied (%s) after predicting' % c['how'], T)
    (two.fit(X[::-1] * 2 + 1, y, bags) if c['which'].startswith('ensemble') else two.fit(X[::-1] * 2 + 1, y))
    agree(e, want, 'after fitting a copy with other data', X, T)
    new = clone(e)
    like(e, new, msg + ' cloned')
    check(getattr(new, 'classes_', None) is None, '%s: the clone is fitted', msg)
    try:
        new.predict_proba(T)
    except Exception:
        pass
    else:
        check(False, '%s: the clone predicts without being fitted', msg)
    agree(fit(new), want, 'cloned', X, T)
    params = build().get_params(deep=False)
    late = type(e)(**{n: GaussianNB(priors=None) for n in params if n in NEEDS})
    late.set_params(**params)
    agree(fit(late), want, 'built with other parameters and then set', X, T)
    if c['verbose'] and 'verbose' in params:
        loud = build().set_params(verbose=1)
        with contextlib.redirect_stdout(io.StringIO()):
            agree(fit(loud), want, 'verbose', X, T)
    return '%s %s %s' % (c['which'], c['base'], c['how'])


def equipped(name, base):
    """Quantifiers that own estimators."""
    if name == 'tree':
        return OrdinalQuantificationTree(base)
    if name == 'pcc':
        return PCC(estimator_test=FrankAndHallMonotoneClassifier(base))
    if name == 'eoq':
        return EoQ(base_quantifier=zoo.build(['PAC', {}]), n_quantifiers=3, bag_generator=PriorShift_BagGenerator(bag_size=30, min_prevalence=0.2),
                   ensemble_estimator_train=EnsembleOfClassifiers(base), ensemble_estimator_test=EnsembleOfClassifiers(base))
    if name == 'eoq ready':
        return EoQ(base_quantifier=zoo.build(['HDy', dict(n_bins=4)]), n_quantifiers=3, n_bins=4,
                   bag_generator=PriorShift_BagGenerator(bag_size=30, min_prevalence=0.2),
                   ensemble_estimator_train=base, ensemble_estimator_test=base)
    q = zoo.build(name)
    if 'estimator_train' in q.get_params(deep=False):
        q.set_params(estimator_train=CV_estimator(base, cv=2))
    return q.set_params(estimator_test=base)


@st.composite
def equipped_cases(draw):
    ts = draw(train_spec(2, 4, 5, 12))
    return dict(ts=ts, q=draw(st.one_of(st.sampled_from(['tree', 'pcc', 'eoq']), zoo.y_spec(ts['k'], nested=False))),
                base=draw(st.sampled_from(['scripted', 'lr', 'nb'])), kind=draw(st.sampled_from(ANY_LABELS)),
                how=draw(st.sampled_from(sorted(COPIES))), bag=draw(bag_counts(ts['k'])), seed=draw(SEED), verbose=draw(st.sampled_from([0, 0, 1])))


@sub('C27', 'equipped', equipped_cases, quick=300,
     rule='quantifiers that own estimators (cross-validated, threshold models, ensembles): copied, pickled, cloned, printed; parameters of '
          'the estimators set through the quantifier; the same estimates; non-trivial always')
def equipped_check(c):
    ts = dict(c['ts'], scale=1.0)
    X, y = build_train(ts, c['kind'])
    T, _ = build_bag(ts, c['bag'], c['seed'])
    name = c['q']
    msg = '%s with %s' % (name if isinstance(name, str) else zoo.label(name), c['base'])

    def build():
        return equipped(name, bases(c['base']))

    def fit(q):
        q.fit(X, y)
        return q

    def pred(q):
        return ask(lambda: q.predict(T))
    want = pred(fit(build()))
    dup = COPIES[c['how']]
    q = build()
    printed(q, msg)
    same(pred(fit(dup(q))), want, 1e-7, msg + ', copied before fitting')
    fit(q)
    same(pred(dup(q)), want, 1e-7, msg + ', copied after fitting')
    same(pred(q), want, 1e-7, msg)
    same(pred(dup(q)), want, 1e-5, msg + ', copied after predicting')
    new = clone(q)
    like(q, new, msg + ' cloned')
    try:
        new.predict(T)
    except Exception:
        pass
    else:
        check(False, '%s: the clone predicts without being fitted', msg)
    same(pred(fit(new)), want, 1e-7, msg + ', cloned')
    deep = {n: v for n, v in build().get_params().items() if simple(v) and '__' in n}
    q = build()
    for n, v in deep.items():
        q.set_params(**{n: v})
        check(q.get_params()[n] == v, '%s: %s is not set', msg, n)
    same(pred(fit(q)), want, 1e-7, msg + ', parameters set one by one')
    if c['verbose']:
        loud = build().set_params(verbose=1)
        with contextlib.redirect_stdout(io.StringIO()):
            fit(loud)
            got = pred(loud)
        same(got, want, 1e-7, msg + ', verbose')
    return '%s %s' % (msg, c['how'])


@st.composite
def marks(draw):
    k = draw(st.integers(2, 5))
    return dict(k=k, neg=draw(st.integers(-3, 0)), pos=draw(st.integers(1, 3)), kind=draw(st.sampled_from(ANY_LABELS)),
                how=draw(st.sampled_from(sorted(COPIES))))


@sub('C27', 'label_groups', marks, quick=80,
     rule='the label grouping copied, pickled, cloned and printed; non-trivial with three or more classes')
def label_groups(c):
    L = labels(c['kind'], c['k'])
    b = FHLabelBinarizer(neg_label=c['neg'], pos_label=c['pos'])
    listed(b, dict(neg_label=c['neg'], pos_label=c['pos']), 'label grouping')
    printed(b, 'label grouping')
    want = np.asarray(b.fit_transform(L))
    e = clone(b)
    like(b, e, 'label grouping cloned')
    for d in (COPIES[c['how']](b), e.fit(L)):
        check(np.array_equal(np.asarray(d.transform(L)), want), 'label grouping: the copy differs')
    return c['k'] > 2 and '%s %d' % (c['kind'], c['k'])


PUBLIC = [zoo.BASES[n][0] for n in sorted(zoo.BASES)] + [
    CV_estimator, CovariateShift_BagGenerator, DDAGClassifier, EnsembleOfClassifiers, EoQ, FHLabelBinarizer, FrankAndHallClassifier,
    FrankAndHallMonotoneClassifier, FrankAndHallQuantifier, FrankAndHallTreeClassifier, OneVsRestQuantifier, OrdinalQuantificationTree,
    PriorAndCovariateShift_BagGenerator, PriorShift_BagGenerator, PWK]
BY_NAME = {c.__name__: c for c in PUBLIC}


# the values documented for the parameters that are not given
DOCUMENTED = {
    'AC': dict(distance='HD'),
    'CV_estimator': dict(pre_dispatch='2*n_jobs', averaged_predictions=True, voting='hard'),
    'CovariateShift_BagGenerator': dict(n_bags=1000, random_state=2032),
    'CvMy': dict(distance=manhattan_distances),
    'DDAGClassifier': dict(predict_method='full_probabilistic'),
    'DFX': dict(distribution_function='PDF', n_bins=8, distance='HD', tol=1e-05),
    'DFy': dict(distribution_function='PDF', n_bins=8, distance='HD', tol=1e-05),
    'EDX': dict(distance=euclidean_distances),
    'EDy': dict(distance=manhattan_distances),
    'EM': dict(epsilon=0.0001, max_iter=1000),
    'EoQ': dict(n_quantifiers=100, combination_strategy='mean', distribution_function='PDF', n_bins=100,
                bin_strategy='equal_width', distance_bags='euclidean', percentage_of_selected_models=0.5),
    'FHLabelBinarizer': dict(neg_label=0, pos_label=1),
    'FrankAndHallTreeClassifier': dict(performance_measure=binary_kld),
    'FriedmanME': dict(distance='L2', tol=1e-05),
    'HDX': dict(n_bins=8, bin_strategy='equal_width', tol=1e-05),
    'HDy': dict(n_bins=8, bin_strategy='equal_width', tol=1e-05),
    'MMy': dict(n_bins=8, bin_strategy='equal_width', tol=1e-05),
    'PAC': dict(distance='L2'),
    'PDFOrdinaly': dict(n_bins=8, method='full_probabilistic', tol=1e-05),
    'PWK': dict(n_neighbors=10, algorithm='auto', leaf_size=30, p=2, metric='minkowski'),
    'PWKQuantifier': dict(n_neighbors=10, p=2, metric='minkowski'),
    'PriorAndCovariateShift_BagGenerator': dict(n_bags=1000, method='Uniform', random_state=2032),
    'PriorShift_BagGenerator': dict(n_bags=1000, method='Uniform', random_state=2032),
    'QUANTy': dict(n_quantiles=8, distance=l2, tol=1e-05),
    'REGX': dict(n_bins=8, bin_strategy='normal'),
    'REGy': dict(n_bins=8),
    'SORDy': dict(tol=1e-05),
}


def same_function(f, g):
    pairs = ([.2, .8], [.5, .5]), ([.7, .3], [.1, .9])
    if g is binary_kld:
        return all(np.isclose(f(a[0], b[0]), g(a[0], b[0])) for a, b in pairs)
    if g is l2:
        return all(np.isclose(f(np.array(a), np.array(b)), g(np.array(a), np.array(b))) for a, b in pairs)
    return all(np.allclose(f(np.array([a]), np.array([b])), g(np.array([a]), np.array([b]))) for a, b in pairs)


def arguments(cls):
    return [p.name for p in inspect.signature(cls.__init__).parameters.values()
            if p.name != 'self' and p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]


@st.composite
def parameter_cases(draw):
    name = draw(st.sampled_from(sorted(BY_NAME)))
    names = arguments(BY_NAME[name])
    value = st.one_of(st.integers(-5, 5), st.booleans(), st.sampled_from(['HD', 'normal', 'some text', 'object', 'model', None]),
                      st.floats(0, 1, allow_nan=False))
    given = draw(st.lists(st.sampled_from(names), unique=True))
    return dict(name=name, given=[[n, draw(value)] for n in given], again=[[n, draw(value)] for n in draw(st.lists(st.sampled_from(names), unique=True))])


@sub('C27', 'parameters', parameter_cases, quick=1500,
     rule='every public class built with a random subset of its parameters set to random values or objects: each one is kept as given '
          '(the same object), the others are as by default, and the same after cloning, deep-copying and setting other values; '
          'non-trivial with some parameter given')
def parameters(c):
    cls = BY_NAME[c['name']]
    names = arguments(cls)
    tree = cls is OrdinalQuantificationTree

    def value(n, v):
        if tree and n == 'estimator_test':        # it makes a tree of any other model
            return FrankAndHallTreeClassifier(LogisticRegression(), n_jobs=v if isinstance(v, int) else None)
        return GaussianNB() if v == 'model' else object() if v == 'object' else v
    given = {n: value(n, v) for n, v in c['given']}
    needed = {p.name: GaussianNB() for p in inspect.signature(cls.__init__).parameters.values()
              if p.name in names and p.default is p.empty}
    default = cls(**needed)
    for n, v in DOCUMENTED.get(c['name'], {}).items():
        given_v = getattr(default, n)
        check(given_v is v or (given_v == v if simple(v) else callable(given_v) and same_function(given_v, v)),
              '%s: parameter %s is %s by default instead of %s', c['name'], n, given_v, v)
    # None stands for the default object in some of the constructors
    given = dict(needed, **{n: v for n, v in given.items() if v is not None or getattr(default, n) is None})
    q = cls(**given)

    def kept(q, expected, what):
        for n in names:
            check(hasattr(q, n), '%s %s: there is no attribute for parameter %s', c['name'], what, n)
            v = getattr(q, n)
            if n in expected:
                check(v is expected[n], '%s %s: parameter %s is %s instead of %s', c['name'], what, n, v, expected[n])
            elif simple(getattr(default, n)):
                check(type(v) is type(getattr(default, n)) and v == getattr(default, n), '%s %s: parameter %s is %s by default instead of %s',
                      c['name'], what, n, v, getattr(default, n))
    kept(q, given, 'built')
    if hasattr(q, 'get_params'):
        check(sorted(q.get_params(deep=False)) == sorted(names), '%s: lists parameters %s', c['name'], sorted(q.get_params(deep=False)))
        listed(q, given, c['name'])
        new = clone(q)
        like_values(q, new, names, c['name'] + ' cloned')
        more = {n: value(n, v) for n, v in c['again'] if v is not None or getattr(default, n) is None}
        if not tree or more.get('estimator_test') is not None:
            check(q.set_params(**more) is q, '%s: set_params does not return the object', c['name'])
            kept(q, dict(given, **more), 'after setting parameters')
            like_values(cls(**dict(given, **more)), clone(q), names, c['name'] + ' set and cloned')
    like_values(q, copy.deepcopy(q), names, c['name'] + ' copied')
    return c['name'] if c['given'] else None


def like_values(a, b, names, msg):
    for n in names:
        u, v = getattr(a, n), getattr(b, n)
        check(type(u) is type(v), '%s: parameter %s is %s and %s', msg, n, u, v)
        if simple(u):
            check(u == v, '%s: parameter %s is %s and %s', msg, n, u, v)
