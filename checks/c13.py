"""C13 bad arguments are refused."""
import numpy as np
from hypothesis import strategies as st
from sklearn.exceptions import NotFittedError
from sklearn.linear_model import LogisticRegression
from sklearn.multiclass import OneVsOneClassifier, OneVsRestClassifier

from pbt import zoo
from pbt.core import sub
from pbt.gen import (ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, labels, pred_spec,
                     raises, train_spec)
from pbt.stubs import Carrier
from quantificationlib.bag_generator import (CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator,
                                             PriorShift_BagGenerator)
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import CC, PCC
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.metrics import multiclass as MM
from quantificationlib.metrics import ordinal as MO
from quantificationlib.metrics import binary as MB
from quantificationlib.multiclass.df import DFX, DFy, HDX, HDy, MMy, compute_bincuts
from quantificationlib.multiclass.energy import EDX
from quantificationlib.multiclass.friedman import FriedmanME
from quantificationlib.multiclass.regression import REGX, REGy
from quantificationlib.ordinal.pdf import PDFOrdinaly
from quantificationlib.ordinal.trees import OrdinalQuantificationTree
from quantificationlib.search import global_search

REFUSED = (ValueError, TypeError, AttributeError, KeyError, IndexError, np.linalg.LinAlgError)
# names close to the valid ones, none of which is valid
NAME = st.sampled_from(['', 'hd', 'l2', 'L3', 'HD ', 'Hd', 'euclidean', 'emd', 'EMD ', 'equal', 'equalwidth', 'equal-width',
                        'Normal', 'normal ', 'uniform', 'UNIFORM', 'dirichlet', 'Uniforme', 'median ', 'Mean', 'best',
                        'winner', 'full', 'soft', 'None', 'pdf', 'cdf'])


def refused(fn, msg):
    raises(REFUSED, fn, msg)


# ------------------------------------------------------------------ bags
@st.composite
def bag_case(draw):
    k = draw(st.integers(2, 4))
    return dict(k=k, cnt=draw(st.lists(st.integers(1, 6), min_size=k, max_size=k)), n=draw(st.sampled_from([1, 5, 20, 50])),
                what=draw(st.sampled_from(['state', 'method', 'scalar', 'vector', 'length', 'alphas', 'infeasible', 'negative'])),
                name=draw(NAME), cls=draw(st.sampled_from(['prior', 'both', 'covariate'])), x=draw(st.booleans()),
                value=draw(st.floats(1e-3, 5)), seed=draw(SEED), aslist=draw(st.booleans()),
                state=draw(st.sampled_from(['', 'seed', None, 1.5, [1, 2], 'none'])))


@sub('C13', 'bags', bag_case, quick=900, rule='one argument of a bag generator made invalid, the rest valid: an error, '
     'and the same generator works once the argument is corrected', case_timeout=20)
def bags(c):
    k = c['k']
    y = np.repeat(np.arange(k), c['cnt'])
    X = np.random.RandomState(c['seed']).normal(size=(len(y), 2))
    r = np.random.RandomState(c['seed'])
    cls = {'prior': PriorShift_BagGenerator, 'both': PriorAndCovariateShift_BagGenerator,
           'covariate': CovariateShift_BagGenerator}[c['cls']]
    kw = dict(n_bags=4, bag_size=c['n'], random_state=c['seed'] % 1000)
    what = c['what']
    if c['cls'] == 'covariate':
        what = 'state'
    vec = (lambda v: list(v)) if c['aslist'] else (lambda v: np.array(v))
    good = {}
    if what == 'state':
        kw['random_state'] = c['state']
        good = dict(random_state=3)
    elif what == 'method':
        kw['method'] = c['name']
        good = dict(method='Uniform')
    elif what == 'scalar':
        kw['min_prevalence'] = 1 + c['value']
        good = dict(min_prevalence=0.0)
    elif what == 'negative':
        v = np.zeros(k)
        v[r.randint(k)] = -c['value']
        kw['min_prevalence'] = vec(v) if c['aslist'] or k > 2 else -c['value']
        good = dict(min_prevalence=None)
    elif what == 'vector':
        v = r.dirichlet(np.ones(k)) * (1 + c['value'])
        kw['min_prevalence'] = vec(v)
        good = dict(min_prevalence=None)
    elif what == 'length':
        m = k + r.choice([-1, 1, 2])
        kw['min_prevalence'] = vec(np.ones(m) * 0.01)
        good = dict(min_prevalence=None)
    elif what == 'alphas':
        kw['method'] = 'Dirichlet'
        m = k + r.choice([-1, 1, 2]) if c['aslist'] else k
        kw['alphas'] = vec(np.ones(m)) if m != k else -np.ones(k) * c['value']
        good = dict(alphas=np.ones(k))
    else:
        kw['min_prevalence'] = min(1.0, (1 + c['value']) / k)
        if kw['min_prevalence'] * c['n'] - 0.5 <= c['n'] / k:
            return None      # respected to the nearest whole example
        good = dict(min_prevalence=None)
    g = cls(**kw)
    msg = '%s with %s = %s' % (cls.__name__, what, {n: kw[n] for n in ('random_state', 'method', 'min_prevalence', 'alphas')
                                                    if n in kw})
    refused(lambda: g.generate_bags(X if c['x'] or c['cls'] != 'prior' else None, y), msg)
    for n, v in good.items():
        setattr(g, n, v)
    prev, idx = g.generate_bags(X, y)
    check(idx.shape == (c['n'], 4) and prev.shape == (k, 4), 'after the correction: %s %s', prev.shape, idx.shape)
    return '%s %s' % (c['cls'], what)


# ------------------------------------------------------------------ quantifiers
@st.composite
def quant_case(draw):
    k = draw(st.integers(2, 4))
    ps = draw(pred_spec(k, k, 2, 8))
    return dict(ps=ps, what=draw(st.sampled_from(['distance', 'strategy', 'binormal', 'callable', 'binary', 'nothing', 'no_test',
                                                  'no_train', 'ordinal2', 'pdf_method', 'singular', 'reg', 'one_class'])),
                name=draw(NAME), q=draw(zoo.y_spec(k, nested=False)), kind=draw(st.sampled_from(ANY_LABELS)),
                q2=draw(zoo.y_spec(2, names=['QUANTy', 'SORDy', 'DeBias'], nested=False)), bag=draw(bag_counts(k)),
                seed=draw(SEED), which=draw(st.integers(0, 5)))


@sub('C13', 'quantifiers', quant_case, quick=1200, case_timeout=30,
     rule='quantifiers on predictions with an unknown distance, binning or method name, with data they do not admit or '
          'without estimators and predictions: an error in fit or in predict')
def quantifiers(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    k, w, name = c['ps']['k'], c['which'], c['name']

    def both(q):
        q.fit(None, y, predictions_train=P)
        q.predict(None, predictions_test=T)
    what = c['what']
    if what == 'distance':
        q = [DFy(distance=name), FriedmanME(distance=name), PDFOrdinaly(distance=name), DFy(distance=name, n_bins=3)][w % 4]
    elif what == 'strategy':
        q = [DFy(bin_strategy=name), HDy(bin_strategy=name), MMy(bin_strategy=name),
             REGy(bin_strategy=name, bag_generator=PriorShift_BagGenerator(n_bags=5))][w % 4]
    elif what == 'binormal':
        if k == 2:
            return None
        q = [DFy, HDy, MMy][w % 3](bin_strategy='binormal')
    elif what == 'callable':
        if k == 2:
            return None
        q = [DFy(distance=MM.l2), FriedmanME(distance=MM.l1)][w % 2]
    elif what == 'binary':
        if k == 2:
            return None
        q = zoo.build(c['q2'])
    elif what == 'one_class':
        y = np.repeat(y[:1], len(y))
        P, T = (np.column_stack([1 - A[:, 0], A[:, 0]]) for A in (P, T))
        q = zoo.build(c['q2'])
    elif what == 'ordinal2':
        if k > 2:
            return None
        q = PDFOrdinaly(distance=['L2', 'HD', 'EMD'][w % 3])
    elif what == 'pdf_method':
        q = PDFOrdinaly(method=name)
        if k == 2:
            return None
    elif what == 'singular':
        if k == 2:
            return None
        # one class is always mistaken for another: no inverse, so the distance is needed
        P = P.copy()
        L = np.unique(y)
        P[y == L[0]] = P[y == L[1]][0]
        P[y == L[1]] = P[y == L[1]][0]
        q = [AC, PAC][w % 2](distance=name)
    elif what == 'reg':
        q = REGy(bag_generator=PriorShift_BagGenerator(n_bags=5, method=name))
    else:
        q = zoo.build(c['q'])
        params = q.get_params(deep=False)
        if what == 'nothing':
            if 'estimator_train' not in params:
                return None
            refused(lambda: q.fit(None, y), '%s without estimator and predictions' % zoo.label(c['q']))
            return 'no train'
        if what == 'no_test':
            q.fit(None, y, predictions_train=P)
            refused(lambda: q.predict(T), '%s without estimator_test and predictions_test' % zoo.label(c['q']))
            q.predict(None, predictions_test=T) if c['q'][0] not in ('DFy', 'FriedmanME', 'QUANTy') else None
            return 'no test'
        if 'estimator_train' not in params:
            return None
        q.set_params(estimator_test=Carrier())
        refused(lambda: q.fit(P, y), '%s without estimator_train and predictions_train' % zoo.label(c['q']))
        return 'only test'
    refused(lambda: both(q), '%s(%s) %s with %d classes' % (type(q).__name__, name, what, k))
    return what


@st.composite
def feature_case(draw):
    ts = draw(train_spec(2, 4, 3, 8))
    k = ts['k']
    return dict(ts=ts, q=draw(zoo.x_spec(k, names=['DFX', 'HDX', 'EDX', 'PWKQuantifier', 'REGX'], nested=False)),
                what=draw(st.sampled_from(['distance', 'strategy', 'binormal', 'callable', 'nan', 'inf', 'length', 'features',
                                           'test_nan', 'test_inf', 'one_d', 'more_features', 'empty'])),
                name=draw(NAME), bag=draw(bag_counts(k)), seed=draw(SEED), where=draw(st.integers(0, 1000)),
                kind=draw(st.sampled_from(ANY_LABELS)))


@sub('C13', 'features', feature_case, quick=600, case_timeout=30,
     rule='quantifiers on features with unknown options, undefined or infinite features, more labels than examples, '
          'another number of features or an empty bag: an error')
def features(c):
    X, y = build_train(c['ts'], c['kind'])
    B, _ = build_bag(c['ts'], c['bag'], c['seed'])
    what, k, name, w = c['what'], c['ts']['k'], c['name'], c['where']

    def both(q, X=X, y=y, B=B):
        q.fit(X, y)
        q.predict(B)
    if what == 'distance':
        q = DFX(distance=name)
    elif what == 'strategy':
        q = [DFX(bin_strategy=name), HDX(bin_strategy=name), REGX(bin_strategy=name)][w % 3]
    elif what in ('binormal', 'callable'):
        if k == 2:
            return None
        q = DFX(bin_strategy='binormal') if what == 'binormal' else DFX(distance=MM.l1)
    else:
        q = zoo.build(c['q'])
        bad = X.copy()
        if what in ('nan', 'inf'):
            bad[w % len(X), w % X.shape[1]] = np.nan if what == 'nan' else np.inf
            refused(lambda: q.fit(bad, y), '%s fitted with %s' % (zoo.label(c['q']), what))
        elif what == 'one_d':
            refused(lambda: q.fit(X[:, 0], y), '%s fitted with a vector' % zoo.label(c['q']))
        elif what == 'length':
            refused(lambda: q.fit(X[:-1], y), '%s fitted with more labels than examples' % zoo.label(c['q']))
        elif what == 'features':
            q.fit(np.hstack([X, X]), y)
            refused(lambda: q.predict(B), '%s asked with fewer features' % zoo.label(c['q']))
        elif what == 'more_features':
            q.fit(X, y)
            refused(lambda: q.predict(np.hstack([B, B[:, :1]])), '%s asked with more features' % zoo.label(c['q']))
        elif what == 'empty':
            q.fit(X, y)
            refused(lambda: q.predict(B[:0]), '%s asked with an empty bag' % zoo.label(c['q']))
        else:
            q.fit(X, y)
            bad = B.copy()
            bad[w % len(B), w % B.shape[1]] = np.nan if what == 'test_nan' else -np.inf
            refused(lambda: q.predict(bad), '%s asked with %s' % (zoo.label(c['q']), what))
        return what
    refused(lambda: both(q), '%s(%s) %s with %d classes' % (type(q).__name__, name, what, k))
    return what


@st.composite
def carrier_case(draw):
    k = draw(st.integers(2, 4))
    ps = draw(pred_spec(k, k, 2, 8))
    return dict(ps=ps, q=draw(zoo.y_spec(k, names=['CC', 'PCC', 'AC', 'PAC', 'EM', 'DFy', 'HDy', 'MMy', 'EDy', 'CvMy', 'FriedmanME',
                                                   'ACOrdinal', 'QUANTy', 'SORDy', 'DeBias', 'PDFOrdinaly'], nested=False)),
                what=draw(st.sampled_from(['fit', 'fit', 'test', 'test', 'test', 'length'])), kind=draw(st.sampled_from(ANY_LABELS)),
                bag=draw(bag_counts(k)), seed=draw(SEED), where=draw(st.integers(0, 1000)), other=draw(st.booleans()),
                value=draw(st.sampled_from(['nan', 'inf', '-inf', 'vector', 'empty'])), both=draw(st.booleans()))


@sub('C13', 'data_of_classifiers', carrier_case, quick=500, case_timeout=30,
     rule='quantifiers with classifiers that would accept anything, given undefined or infinite features, a vector, no example or '
          'more labels than examples: an error, and no error for the valid data')
def data_of_classifiers(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    k, what, w, v = c['ps']['k'], c['what'], c['where'], c['value']
    q = zoo.equip(c['q'], Carrier(), Carrier())

    def spoil(A):
        if v == 'vector':
            return A[:, 0]
        if v == 'empty':
            return A[:0]
        A = np.hstack([A, np.zeros((len(A), 1))])      # the last column is ignored by the classifier
        A[w % len(A), -1 if c['other'] else w % A.shape[1]] = float(v)
        return A
    name = zoo.label(c['q'])
    if what == 'length':
        refused(lambda: q.fit(P[:-1], y), '%s fitted with more labels than examples' % name)
    elif what == 'fit':
        if v == 'vector':
            return None                                # X[0:1, :] is already an error for any estimator
        refused(lambda: q.fit(spoil(P), y), '%s fitted with %s' % (name, v))
    else:
        q.fit(P, y)
        refused(lambda: q.predict(spoil(T)), '%s asked with %s' % (name, v))
        try:
            r = q.predict(T)
        except ValueError:
            return '%s %s' % (what, v)                 # a constant loss
        check(np.shape(r) == (k,), 'the answer for the valid bag is %s', r)
    return '%s %s' % (what, v)


@st.composite
def prediction_case(draw):
    k = draw(st.integers(2, 4))
    ps = draw(pred_spec(k, k, 2, 8))
    return dict(ps=ps, q=draw(zoo.y_spec(k, glm=False)), what=draw(st.sampled_from(['short', 'long', 'third', 'train_nan', 'train_inf', 'test_nan',
                                                                                'test_inf', 'wide', 'narrow', 'empty', 'matrix'])),
                kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(k)), seed=draw(SEED), where=draw(st.integers(0, 1000)))


@sub('C13', 'predictions', prediction_case, quick=500, case_timeout=30,
     rule='quantifiers given training predictions that do not match the examples (fewer, more, not a multiple), undefined or infinite '
          'predictions, no test prediction at all, or test predictions with one column too many or too few: an error; no error for the '
          'valid ones')
def predictions(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    k, what, w = c['ps']['k'], c['what'], c['where']
    q = zoo.build(c['q'])
    name = zoo.label(c['q'])
    meta = c['q'][0] in ('OVR', 'FH', 'EoQ')

    def spoil(A, v):
        A = A.copy()
        A[w % len(A), w % (k - 1 if c['q'][0] == 'FH' else k)] = v
        return A
    if what in ('short', 'long', 'third', 'train_nan', 'train_inf'):
        base = c['q'][1].get('base', c['q'])
        if base[0] in ('CC', 'PCC'):
            return None                                # the training predictions are not used
        bad = {'short': P[:len(P) - 1 - w % max(1, len(P) - 2)], 'third': P[:max(1, len(P) // 3)], 'long': np.vstack([P, P[:1 + w % (len(P) - 1)]]),
               'train_nan': spoil(P, np.nan), 'train_inf': spoil(P, np.inf)}[what]

        def both():
            q.fit(None, y, predictions_train=bad)
            q.predict(None, predictions_test=T)
        refused(both, '%s with training predictions: %s' % (name, what))
        return '%s %s' % (what, c['q'][0])
    q.fit(None, y, predictions_train=P)
    if what in ('wide', 'narrow', 'matrix') and meta:
        return None
    bad = {'test_nan': lambda: spoil(T, np.nan), 'test_inf': lambda: spoil(T, -np.inf), 'empty': lambda: T[:0], 'narrow': lambda: T[:, 1:],
           'wide': lambda: np.hstack([T, np.zeros((len(T), 1))]), 'matrix': lambda: np.hstack([T, T])}[what]()
    if what == 'narrow' and k == 2 and not q.probabilistic_predictions:
        return None                                    # one column with the probability of the positive class
    refused(lambda: q.predict(None, predictions_test=bad), '%s with test predictions: %s' % (name, what))
    try:
        r = q.predict(None, predictions_test=T)
    except ValueError:
        return '%s %s' % (what, c['q'][0])             # a constant loss
    r = r['mean'] if isinstance(r, dict) else r
    check(np.shape(r) == (k,), 'the answer for the valid bag is %s', r)
    return '%s %s' % (what, c['q'][0])


@st.composite
def classes_case(draw):
    k = draw(st.integers(2, 4))
    return dict(ps=draw(pred_spec(k, k, 2, 8)), q=draw(zoo.y_spec(k, glm=False)), on=draw(st.sampled_from(['train', 'test'])),
                what=draw(st.sampled_from(['wide', 'narrow', 'one', 'double', 'labels', 'labels', 'estimator', 'estimator'])),
                kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(k)), seed=draw(SEED), where=draw(st.integers(0, 1000)),
                crisp=draw(st.sampled_from(['CC', 'AC', 'ACOrdinal'])), gone=draw(st.integers(0, 3)))


@sub('C13', 'classes', classes_case, quick=600, case_timeout=30,
     rule='predictions for other classes than those of the training set, for the training examples or for the bag: probabilities with '
          'more or less columns than the method needs or in a vector, labels that are not classes of the training set, classifiers '
          'fitted with a class that is not in the training set: an error, and no error for the right predictions')
def classes(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    k, what, w, spec = c['ps']['k'], c['what'], c['where'], c['q']
    L = np.unique(y)
    if what == 'labels':
        spec = [c['crisp'] if k > 2 or c['crisp'] != 'ACOrdinal' else 'AC', {}]
        if spec[0] == 'CC':
            c = dict(c, on='test')
        A, B = L[P.argmax(axis=1)], L[T.argmax(axis=1)]
        bad = (A if c['on'] == 'train' else B).astype(object)
        i = w % len(bad)
        bad[i] = 'no such class' if L.dtype.kind in 'UO' else L.max() + 1 if w % 2 else L.min() - 1
        bad = np.array(bad.tolist())
        if bad.dtype.kind == 'f':
            return None                                # vectors of numbers are probabilities when there are two classes
        goods = A, B
    elif what == 'estimator':
        if k == 2:
            return None
        keep = y != L[c['gone'] % k]
        wide = Carrier().fit(P, y)
        if spec[0] in ('OVR', 'FH'):
            return None                                # they need a decomposed classifier
        if k == 3 and spec[0] not in ('CC', 'PCC', 'AC', 'PAC', 'EM', 'DFy', 'HDy', 'EDy', 'CvMy', 'MMy', 'FriedmanME'):
            return None                                # only for more than two classes
        q = zoo.equip(spec, wide, wide)
        crisp = not q.probabilistic_predictions
        if crisp and spec[0] == 'CC' and not (T.argmax(axis=1) == c['gone'] % k).any():
            return None                                # the class is never predicted
        if crisp and spec[0] != 'CC' and not (np.r_[P[keep], T].argmax(axis=1) == c['gone'] % k).any():
            return None

        def both():
            q.fit(P[keep], y[keep])
            return q.predict(T)
        refused(both, '%s for %d classes with a classifier of %d classes' % (zoo.label(spec), k - 1, k))
        return 'estimator %s' % spec[0]
    else:
        goods = zoo.view(spec, P), zoo.view(spec, T)
        good = goods[c['on'] == 'test']
        needed = good.shape[1]
        if spec[0] == 'FH' and what == 'wide':
            good = np.hstack([good, good[:, :1]])      # the group with all the classes may be given
        bad = {'wide': lambda: np.hstack([good, good[:, :1]]), 'narrow': lambda: good[:, :-1] if w % 2 else good[:, 1:],
               'one': lambda: good[:, w % needed], 'double': lambda: np.hstack([goods[c['on'] == 'test']] * 3)}[what]()
        q = zoo.build(spec)
        base = q if spec[0] not in ('OVR', 'FH') else zoo.build(spec[1]['base'])
        if what in ('narrow', 'one') and not q.probabilistic_predictions and k == 2:
            return None                                # the probability of the positive class
        if what == 'one' and not q.probabilistic_predictions and np.isin(bad, L).all():
            return None                                # zeros and ones that are also labels
        if c['on'] == 'train' and not base.needs_predictions_train:
            return None                                # the training predictions are not used
    q = zoo.build(spec)

    def run():
        q.fit(None, y, predictions_train=bad if c['on'] == 'train' else goods[0])
        return q.predict(None, predictions_test=bad if c['on'] == 'test' else goods[1])
    refused(run, '%s with %s for %s' % (zoo.label(spec), what, c['on']))
    q = zoo.build(spec)
    q.fit(None, y, predictions_train=goods[0])
    try:
        r = q.predict(None, predictions_test=goods[1])
    except ValueError:
        return '%s %s %s' % (what, c['on'], spec[0])   # a constant loss
    check(np.shape(r) == (k,), 'the answer for the right predictions is %s', r)
    return '%s %s %s' % (what, c['on'], spec[0])


class NotAQuantifier:
    def fit(self, X, y, predictions_train=None):
        return self

    def predict(self, X, predictions_test=None):
        return np.ones(2) / 2


@st.composite
def meta_case(draw):
    ps = draw(pred_spec(3, 4, 2, 8))
    return dict(ps=ps, what=draw(st.sampled_from(['ovr_base', 'fh_base', 'ovr_estimator', 'fh_estimator', 'eoq_base', 'eoq_generator',
                                                  'eoq_none', 'eoq_no_test', 'eoq_strategy', 'eoq_crisp', 'not_fitted',
                                                  'no_estimator', 'tree'])),
                name=draw(NAME), base=draw(zoo.y_spec(2, nested=False)), kind=draw(st.sampled_from(ANY_LABELS)),
                where=draw(st.integers(0, 3)), notq=draw(st.sampled_from(['object', 'classifier', 'none', 'class', 'str'])),
                on=draw(st.booleans()), seed=draw(SEED))


@sub('C13', 'meta', meta_case, quick=700, case_timeout=30,
     rule='decomposition and ensemble quantifiers with something that is not a quantifier or not the decomposed classifier, '
          'unknown strategies; estimators asked before being fitted or without a base estimator: an error')
def meta(c):
    P, y = build_preds(c['ps'], c['kind'])
    what, w = c['what'], c['where']
    notq = {'object': NotAQuantifier(), 'classifier': LogisticRegression(), 'none': None, 'class': CC, 'str': 'CC'}[c['notq']]
    gen = PriorShift_BagGenerator(n_bags=3, min_prevalence=0.1, bag_size=40, random_state=1)
    if what == 'ovr_base':
        refused(lambda: OneVsRestQuantifier(base_quantifier=notq).fit(P, y, predictions_train=P), 'OVR of %s' % c['notq'])
    elif what == 'fh_base':
        refused(lambda: FrankAndHallQuantifier(quantifier=notq).fit(P, y, predictions_train=P), 'FH of %s' % c['notq'])
    elif what in ('ovr_estimator', 'fh_estimator'):
        wrong = [LogisticRegression(), Carrier(), OneVsOneClassifier(LogisticRegression()),
                 FrankAndHallClassifier(LogisticRegression()) if what[0] == 'o' else OneVsRestClassifier(LogisticRegression())][w]
        right = (OneVsRestClassifier if what[0] == 'o' else FrankAndHallClassifier)(LogisticRegression())
        base = zoo.build(c['base'])
        kw = dict(estimator_train=wrong, estimator_test=right) if c['on'] else dict(estimator_train=right, estimator_test=wrong)
        q = OneVsRestQuantifier(base, **kw) if what[0] == 'o' else FrankAndHallQuantifier(base, **kw)
        refused(lambda: q.fit(P, y), '%s with %s' % (type(q).__name__, type(wrong).__name__))
    elif what == 'eoq_base':
        refused(lambda: EoQ(base_quantifier=notq, n_quantifiers=3, bag_generator=gen).fit(P, y), 'EoQ of %s' % c['notq'])
    elif what == 'eoq_generator':
        bad = ['Uniform', 3, NotAQuantifier(), PriorShift_BagGenerator][w]
        refused(lambda: EoQ(base_quantifier=EDX(), n_quantifiers=3, bag_generator=bad).fit(P, y), 'EoQ with bags by %s' % bad)
    elif what == 'eoq_none':
        refused(lambda: EoQ(base_quantifier=PCC() if w % 2 else CC(), n_quantifiers=3, bag_generator=gen).fit(P, y),
                'EoQ without estimators and predictions')
    elif what == 'eoq_no_test':
        q = EoQ(base_quantifier=PCC() if w % 2 else CC(), n_quantifiers=3, bag_generator=gen)
        q.fit(P, y, predictions_train=P)
        refused(lambda: q.predict(P), 'EoQ without ensemble_estimator_test and predictions_test')
    elif what == 'eoq_strategy':
        q = EoQ(base_quantifier=EDX() if w % 2 else PCC(), n_quantifiers=3, bag_generator=gen, combination_strategy=c['name'])

        def run():
            q.fit(P, y, predictions_train=P)
            q.predict(P) if w % 2 else q.predict(P, predictions_test=P)
        refused(run, 'EoQ with strategy %s' % c['name'])
    elif what == 'eoq_crisp':
        L = np.unique(y)
        q = EoQ(base_quantifier=[CC(), AC()][w % 2], n_quantifiers=3, bag_generator=gen,
                combination_strategy=['distribution_similarity', 'all'][w // 2])

        def run():
            q.fit(P, y, predictions_train=L[P.argmax(axis=1)])
            q.predict(P, predictions_test=L[P.argmax(axis=1)])
        refused(run, 'EoQ with the distribution of crisp predictions')
    elif what == 'not_fitted':
        e = [CV_estimator(LogisticRegression()), EnsembleOfClassifiers(LogisticRegression()),
             [FrankAndHallClassifier, FrankAndHallMonotoneClassifier, FrankAndHallTreeClassifier][c['seed'] % 3](LogisticRegression()),
             DDAGClassifier(LogisticRegression())][w]
        m = e.predict_proba if c['on'] else e.predict
        raises(NotFittedError, lambda: m(P), '%s asked before being fitted' % type(e).__name__)
    elif what == 'no_estimator':
        e = [FrankAndHallClassifier(), FrankAndHallMonotoneClassifier(), FrankAndHallTreeClassifier(), EnsembleOfClassifiers()][w]
        args = (np.zeros((len(y), 2), dtype=int),) if w == 3 else ()
        refused(lambda: e.fit(P, y, *args), '%s without estimator' % type(e).__name__)
    else:
        refused(lambda: OrdinalQuantificationTree(None).fit(P, y), 'tree without estimator')
    return what


# ------------------------------------------------------------------ metrics and search
METRICS = {'multiclass': ['kld', 'mean_absolute_error', 'l1', 'mean_squared_error', 'l2', 'hd', 'bray_curtis', 'topsoe',
                          'jensenshannon', 'probsymmetric'], 'ordinal': ['emd', 'emd_score']}


@st.composite
def metric_case(draw):
    mod = draw(st.sampled_from(sorted(METRICS)))
    n = draw(st.integers(2, 6))
    return dict(mod=mod, f=draw(st.sampled_from(METRICS[mod])), n=n, m=draw(st.integers(1, 8)),
                what=draw(st.sampled_from(['length', 'nan', 'inf', 'text', 'columns'])), side=draw(st.booleans()),
                seed=draw(SEED), aslist=draw(st.booleans()), cols=draw(st.sampled_from([(2, 3), (1, 2), (1, 3), (2, 4), (0, 2), (0, 3)])))


@sub('C13', 'metrics', metric_case, quick=600, rule='error measures of prevalences of different lengths or with undefined or '
     'infinite entries: an error, and no error for the valid pair', case_timeout=20)
def metrics(c):
    r = np.random.RandomState(c['seed'])
    f = getattr(MM if c['mod'] == 'multiclass' else MO, c['f'])
    p, q = r.dirichlet(np.ones(c['n'])), r.dirichlet(np.ones(c['n']))
    f(p.copy(), q.copy())
    what = c['what']
    if what == 'length':
        if c['m'] == c['n']:
            return None
        q = r.dirichlet(np.ones(c['m']))
    elif what in ('nan', 'inf'):
        q = q.copy()
        q[r.randint(c['n'])] = np.nan if what == 'nan' else np.inf
    elif what == 'text':
        q = np.array(['a'] * c['n'])
    else:
        p, q = [v if not n else np.column_stack([v] * n) for v, n in zip((p, q), c['cols'])]
    a, b = (p, q) if c['side'] else (q, p)
    if c['aslist']:
        a, b = a.tolist(), b.tolist()
    refused(lambda: f(a, b), '%s with %s' % (c['f'], what))
    return '%s %s' % (c['f'], what)


@sub('C13', 'cuts_and_search', lambda: st.fixed_dictionaries(dict(
    name=NAME, k=st.integers(2, 4), n=st.integers(2, 10), bins=st.integers(2, 8), seed=SEED, level=st.floats(-5, 5),
    what=st.sampled_from(['name', 'binormal', 'flat', 'flat_cached']))), quick=300,
    rule='limits of bins with an unknown strategy or binormal limits of several classes, and the search on a constant loss: an '
         'error', case_timeout=20)
def cuts_and_search(c):
    r = np.random.RandomState(c['seed'])
    y = np.repeat(np.arange(c['k']), c['n'])
    x = r.normal(size=len(y))
    if c['what'] == 'name':
        refused(lambda: compute_bincuts(x, y, np.unique(y), c['bins'], c['name']), 'bins %s' % c['name'])
    elif c['what'] == 'binormal':
        if c['k'] == 2:
            check(len(compute_bincuts(x, y, np.unique(y), c['bins'], 'binormal')) == c['bins'] + 1, 'binormal limits')
            return None
        refused(lambda: compute_bincuts(x, y, np.unique(y), c['bins'], 'binormal'), 'binormal bins of %d classes' % c['k'])
    else:
        kw = dict(distance_func=lambda a, b: c['level'], mixture_func=lambda prevalence=0: np.ones(3) * prevalence,
                  test_distrib=np.ones(3), tol=1e-4)
        mix = None if c['what'] == 'flat' else np.zeros((101, 3))
        refused(lambda: global_search(mixtures=mix, return_mixtures=True, **kw), 'a constant loss')
        refused(lambda: global_search(mixtures=mix, return_mixtures=False, **kw), 'a constant loss')
    return c['what']
