"""C29 the estimates do not depend on how the data are stored."""
import numpy as np
import pandas as pd
import scipy.sparse as sp
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.exceptions import NotFittedError
from sklearn.naive_bayes import GaussianNB

from pbt import zoo
from pbt.core import sub
from pbt.gen import (more, ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, norm, pred_spec, simplex, train_spec)
from quantificationlib.bag_generator import (CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator,
                                             PriorShift_BagGenerator)
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.estimators.weighted_knn import PWK
from quantificationlib.metrics import binary, multiclass, ordinal


def strided(A):
    """Every second row of a bigger array, without its first and last columns."""
    if A.ndim == 1:
        B = np.zeros(2 * len(A) + 1, dtype=A.dtype)
        B[1::2] = A
        return B[1::2]
    B = np.full((2 * len(A), A.shape[1] + 3), 7, dtype=A.dtype)
    B[::2, 2:-1] = A
    return B[::2, 2:-1]


def readonly(A):
    B = np.array(A)
    B.setflags(write=False)
    return B


MATRIX = {'same': lambda A: A.copy(), 'columns': np.asfortranarray, 'strided': strided, 'readonly': readonly,
          'backwards': lambda A: np.ascontiguousarray(A[::-1])[::-1],
          'mirrored': lambda A: np.ascontiguousarray(A[:, ::-1])[:, ::-1] if A.ndim == 2 else A.copy()}


def series(y):
    """The index is not the position."""
    return pd.Series(y, index=np.arange(len(y))[::-1])


VECTOR = {'same': lambda y: y.copy(), 'strided': strided, 'readonly': readonly, 'backwards': lambda y: np.ascontiguousarray(y[::-1])[::-1],
          'series': series, 'shuffled series': lambda y: pd.Series(y, index=np.random.RandomState(len(y)).permutation(len(y)) * 3 + 5),
          'small': lambda y: y.astype({'i': np.int16, 'f': np.float32}.get(y.dtype.kind, object)),
          'real': lambda y: y.astype(float) if y.dtype.kind in 'if' else y.astype('U20')}
HOW_X, HOW_Y = st.sampled_from(sorted(MATRIX)), st.sampled_from(sorted(VECTOR))


def dyadic(P, denominator=256):
    """Multiples of 1/256: sums and means of them do not depend on the order."""
    P = np.floor(P * denominator) / denominator
    P[np.arange(len(P)), P.argmax(axis=1)] += 1 - P.sum(axis=1)
    return P


def on_edges(spec):
    """Whether limits of bins are computed from sums: a rounded value may then be on a limit up to rounding errors."""
    return "normal'" in str(spec)


def ask(f):
    try:
        return np.array(f(), dtype=float)
    except ValueError as e:
        if 'infinite minima' in str(e) or 'predict' in str(e):
            return 'refused'
        raise


def same(a, b, tol, msg):
    if isinstance(a, str) or isinstance(b, str):
        check(isinstance(a, str) and isinstance(b, str), '%s: %s and %s', msg, a, b)
    else:
        close(a, b, tol, msg)


def stored(c):
    return 'data stored as %s, labels as %s, test data as %s' % (c['hx'], c['hy'], c['ht'])


def plain(c):
    return c['hx'] == c['hy'] == c['ht'] == 'same'


@st.composite
def y_cases(draw):
    ps = draw(pred_spec(2, 4, 2, 12))
    return dict(ps=ps, q=draw(zoo.y_spec(ps['k'], glm=False)), kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(ps['k'])),
                seed=draw(SEED), hx=draw(HOW_X), hy=draw(HOW_Y), ht=draw(HOW_X))


@sub('C29', 'predictions', y_cases, quick=1500, big=93,
     rule='classifier-based quantifiers x predictions by rows or by columns, strided, backwards, read-only x labels as arrays of '
          'several types, strided, read-only or series whose index is not the position: the estimate of the plain arrays, and nothing '
          'is written to them; non-trivial when something is not a plain array')
def predictions(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    spec = c['q']
    if not on_edges(spec):
        P, T = dyadic(P), dyadic(T)
    P, T = zoo.view(spec, P), zoo.view(spec, T)
    L, LT = MATRIX[c['hx']](P), MATRIX[c['ht']](T)
    M = VECTOR[c['hy']](y)

    def run(P, y, T):
        q = zoo.build(spec)
        return ask(lambda: q.fit(None, y, predictions_train=P).predict(None, predictions_test=T))
    want = run(P.copy(), y.copy(), T.copy())
    same(run(L, M, LT), want, 1e-7, '%s, %s' % (zoo.label(spec), stored(c)))
    check(np.array_equal(L, P) and np.array_equal(LT, T) and np.array_equal(np.asarray(M), y), '%s: the data were modified', zoo.label(spec))
    return None if plain(c) else '%s %s %s %s' % (spec[0], c['hx'], c['hy'], c['ht'])


@st.composite
def x_cases(draw):
    ts = draw(train_spec(2, 4, 3, 12))
    return dict(ts=ts, q=draw(zoo.x_spec(ts['k'])), kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(ts['k'])), seed=draw(SEED),
                hx=draw(HOW_X), hy=draw(HOW_Y), ht=draw(HOW_X), whole=draw(st.booleans()),
                width=draw(st.sampled_from(['int64', 'int64', 'int32', 'int16', 'uint16', 'uint8', 'int8'])))


def fill(X, T, width):
    """The same whole numbers moved and stretched to the ends of a small type."""
    if width in ('int64', 'int32'):
        return X, T
    i = np.iinfo(width)
    lo, hi = min(X.min(), T.min()), max(X.max(), T.max())
    f = max(1, (i.max - i.min) // max(1, int(hi - lo)))
    return (X - lo) * f + i.min, (T - lo) * f + i.min


def sixteenths(X, c, rounded=True):
    """Sums of them are exact; but neighbours must not be equally distant."""
    if not rounded:
        return X
    X = np.round(X / c['ts']['scale'] * 16) / 16
    return np.round(X) if c['whole'] else X


@sub('C29', 'features', x_cases, quick=900, big=56,
     rule='the same for the quantifiers based on features, ensembles and decompositions of them; also features of an integer type; '
          'non-trivial when something is not a plain array')
def features(c):
    X, y = build_train(c['ts'], c['kind'])
    T, _ = build_bag(c['ts'], c['bag'], c['seed'])
    ties = 'PWKQuantifier' not in str(c['q']) and not on_edges(c['q'])
    if not ties:
        X, T = X + np.random.RandomState(c['seed']).normal(size=X.shape) * 1e-3 * c['ts']['scale'], T.copy()
    X, T = sixteenths(X, c, ties), sixteenths(T, c, ties)
    if c['whole'] and ties:
        X, T = fill(X, T, c['width'])
        check(np.array_equal(X.astype(c['width']), X) and np.array_equal(T.astype(c['width']), T), 'the numbers do not fit')
        L, LT = MATRIX[c['hx']](X.astype(c['width'])), MATRIX[c['ht']](T.astype(c['width']))
    else:
        L, LT = MATRIX[c['hx']](X), MATRIX[c['ht']](T)
    M = VECTOR[c['hy']](y)

    def run(X, y, T):
        q = zoo.build(c['q'])
        return ask(lambda: q.fit(X, y).predict(T))
    want = run(X.copy(), y.copy(), T.copy())
    same(run(L, M, LT), want, 1e-7, '%s, %s' % (zoo.label(c['q']), stored(c)))
    check(np.array_equal(L, X) and np.array_equal(LT, T) and np.array_equal(np.asarray(M), y), '%s: the data were modified', zoo.label(c['q']))
    return None if plain(c) and not c['whole'] else '%s %s %s %s' % (c['q'][0], c['hx'], c['hy'], c['ht'])


class Dense(BaseEstimator, ClassifierMixin):
    """Reads its probabilities from the features, sparse or not."""

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        return self

    def predict_proba(self, X):
        if not hasattr(self, 'classes_'):
            raise NotFittedError('not fitted')
        A = X.toarray() if sp.issparse(X) else np.asarray(X)
        return np.array(A[:, :len(self.classes_)], dtype=float)

    def predict(self, X):
        best = self.predict_proba(X).argmax(axis=1)
        return self.classes_[best]


SPARSE = {'csr': sp.csr_matrix, 'csc': sp.csc_matrix}


@st.composite
def sparse_cases(draw):
    ps = draw(pred_spec(2, 4, 2, 12))
    return dict(ps=ps, q=draw(zoo.y_spec(ps['k'], glm=False, nested=False)), kind=draw(st.sampled_from(ANY_LABELS)),
                bag=draw(bag_counts(ps['k'])), seed=draw(SEED), how=draw(st.sampled_from(sorted(SPARSE))), hy=draw(HOW_Y))


@sub('C29', 'sparse', sparse_cases, quick=500, big=31,
     rule='classifier-based quantifiers whose classifiers accept sparse features, given sparse features for training and for test: the '
          'estimate of the dense ones; non-trivial always')
def sparse(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    P, T = dyadic(P), dyadic(T)
    want = zoo.build(c['q']).fit(None, y, predictions_train=P)
    want = ask(lambda: want.predict(None, predictions_test=T))
    f = SPARSE[c['how']]
    q = zoo.equip(c['q'], Dense(), Dense())
    q.fit(f(P), VECTOR[c['hy']](y))
    same(ask(lambda: q.predict(f(T))), want, 1e-7, '%s with sparse features (%s)' % (zoo.label(c['q']), c['how']))
    return '%s %s' % (c['q'][0], c['how'])


CLASSIFIERS = {
    'plain': lambda: FrankAndHallClassifier(GaussianNB(var_smoothing=1e-2)),
    'monotone': lambda: FrankAndHallMonotoneClassifier(GaussianNB(var_smoothing=1e-2)),
    'tree': lambda: FrankAndHallTreeClassifier(GaussianNB(var_smoothing=1e-2)),
    'graph': lambda: DDAGClassifier(GaussianNB(var_smoothing=1e-2)),
    'winner': lambda: DDAGClassifier(GaussianNB(var_smoothing=1e-2), predict_method='winner_node'),
    'neighbours': lambda: PWK(n_neighbors=3),
    'folds': lambda: CV_estimator(GaussianNB(var_smoothing=1e-2), cv=2),
    'ensemble': lambda: EnsembleOfClassifiers(GaussianNB(var_smoothing=1e-2)),
}


@st.composite
def classifier_cases(draw):
    ts = draw(train_spec(2, 4, 3, 10))
    ts['grid'] = 0
    return dict(ts=ts, which=draw(st.sampled_from(sorted(CLASSIFIERS))), kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(ts['k'])),
                seed=draw(SEED), hx=draw(HOW_X), hy=draw(HOW_Y), ht=draw(HOW_X), whole=False)


@sub('C29', 'classifiers', classifier_cases, quick=400, big=25,
     rule='the classifiers of the library (threshold models, decision graph, weighted neighbours, cross-validation, ensemble) x the same ways '
          'of storing the data: probabilities and classes of the plain arrays, for other data and for the training set; non-trivial '
          'when something is not a plain array')
def classifiers(c):
    X, y = build_train(c['ts'], c['kind'])
    T, _ = build_bag(c['ts'], c['bag'], c['seed'])
    X, T = (sixteenths(A, c, c['which'] != 'neighbours') for A in (X, T))
    r = np.random.RandomState(c['seed'])
    first = np.array([r.choice(np.where(y == v)[0], 3) for v in np.unique(y)])
    bags = np.vstack([first, r.randint(0, len(y), (10, 3))])

    def run(X, y, T):
        e = CLASSIFIERS[c['which']]()
        e.fit(X, y, bags) if c['which'] == 'ensemble' else e.fit(X, y)
        out = [np.asarray(e.predict_proba(T)), np.asarray(e.predict_proba(X))]
        return out, np.asarray(e.predict(T))
    msg = '%s, %s' % (c['which'], stored(c))
    want, crisp = run(X.copy(), y.copy(), T.copy())
    L, LT, M = MATRIX[c['hx']](X), MATRIX[c['ht']](T), VECTOR[c['hy']](y)
    got, classes = run(L, M, LT)
    for a, b in zip(got, want):
        close(a, b, 1e-7, msg)
    top = np.sort(want[0], axis=-1)
    if c['which'] != 'ensemble' and (top.shape[-1] < 2 or (top[..., -1] - top[..., -2]).min() > 1e-6):
        check(np.array_equal(classes, crisp), '%s: classes %s and %s', msg, classes, crisp)
    check(np.array_equal(L, X) and np.array_equal(LT, T) and np.array_equal(np.asarray(M), y), '%s: the data were modified', msg)
    return None if plain(c) else '%s %s %s %s' % (c['which'], c['hx'], c['hy'], c['ht'])


GENERATORS = {'prior': PriorShift_BagGenerator, 'covariate': CovariateShift_BagGenerator, 'both': PriorAndCovariateShift_BagGenerator}


@st.composite
def generator_cases(draw):
    ts = draw(train_spec(2, 4, 2, 10))
    return dict(ts=ts, which=draw(st.sampled_from(sorted(GENERATORS))), kind=draw(st.sampled_from(ANY_LABELS)), seed=draw(SEED),
                hx=draw(HOW_X), hy=draw(st.sampled_from(sorted(VECTOR) + ['list'])), ht='same', whole=draw(st.booleans()),
                size=draw(st.sampled_from([None, 1, 17])), bags=draw(st.integers(1, 4)))


@sub('C29', 'generators', generator_cases, quick=500, big=31,
     rule='bag generators x ways of storing data and labels: the bags and the prevalences of the plain arrays; non-trivial when '
          'something is not a plain array')
def generators(c):
    X, y = build_train(c['ts'], c['kind'])
    X = sixteenths(X, c)

    def run(X, y):
        g = GENERATORS[c['which']](n_bags=c['bags'], bag_size=c['size'], random_state=c['seed'])
        p, i = g.generate_bags(X, y)
        return np.array(p), np.array(i)
    M = y.tolist() if c['hy'] == 'list' else VECTOR[c['hy']](y)
    L = MATRIX[c['hx']](X)
    want, got = run(X.copy(), y.copy()), run(L, M)
    msg = '%s bags, %s' % (c['which'], stored(c))
    close(got[0], want[0], 1e-12, msg + ': prevalences')
    check(np.array_equal(got[1], want[1]), '%s: other examples', msg)
    check(np.array_equal(L, X) and np.array_equal(np.asarray(M), y), '%s: the data were modified', msg)
    return None if plain(c) else '%s %s %s' % (c['which'], c['hx'], c['hy'])


FORMS = {'same': lambda v: v.copy(), 'strided': strided, 'readonly': readonly, 'backwards': VECTOR['backwards'], 'list': lambda v: v.tolist(),
         'tuple': lambda v: tuple(v.tolist()), 'series': series, 'column': lambda v: v.reshape(-1, 1), 'single': lambda v: v.astype(np.float32)}
METRICS = {f.__name__: f for f in (multiclass.bray_curtis, multiclass.hd, multiclass.jensenshannon, multiclass.kld, multiclass.l1, multiclass.l2,
                                   multiclass.mean_absolute_error, multiclass.mean_squared_error, multiclass.probsymmetric,
                                   multiclass.topsoe, ordinal.emd, ordinal.emd_score)}
BINARY = {f.__name__: f for f in (binary.absolute_error, binary.bias, binary.binary_kld, binary.normalized_absolute_score,
                                  binary.normalized_squared_score, binary.relative_absolute_error, binary.squared_error,
                                  binary.symmetric_absolute_percentage_error)}
ONE = {'float': float, 'array': lambda v: np.array([v]), 'single': np.float32, 'double': np.float64, 'zero-d': np.array}


@st.composite
def metric_cases(draw):
    k = draw(st.integers(2, more(6, 30)))
    how = st.sampled_from(sorted(FORMS))
    one = st.sampled_from(sorted(ONE))
    return dict(name=draw(st.sampled_from(sorted(METRICS) + sorted(BINARY) + ['emd_distances'])), k=k,
                p=[draw(simplex(k)) for _ in range(3)], q=[draw(simplex(k)) for _ in range(3)],
                hp=draw(how), hq=draw(how), op=draw(one), oq=draw(one), hx=draw(HOW_X), ht=draw(HOW_X))


@sub('C29', 'metrics', metric_cases, quick=1500, big=93,
     rule='metrics x prevalences as arrays (strided, read-only, columns, single precision), lists, tuples and series; numbers of several '
          'types for the binary metrics; matrices stored in several ways for the distances between sets: the value of the plain '
          'ones; non-trivial when something is not plain')
def metrics(c):
    A, B = (dyadic(np.array([norm(v) for v in vs])) for vs in (c['p'], c['q']))
    msg = c['name']
    if msg == 'emd_distances':
        want = ordinal.emd_distances(A.copy(), B.copy())
        L, M = MATRIX[c['hx']](A), MATRIX[c['ht']](B)
        close(ordinal.emd_distances(L, M), want, 1e-12, '%s of %s and %s' % (msg, c['hx'], c['ht']))
        check(np.array_equal(L, A) and np.array_equal(M, B), '%s: the data were modified', msg)
        return '%s %s %s' % (msg, c['hx'], c['ht'])
    if msg in BINARY:
        f, p, q = BINARY[msg], A[0, 1], B[0, 1]
        want = float(np.ravel(f(p, q))[0])
        got = np.ravel(f(ONE[c['op']](p), ONE[c['oq']](q)))
        check(got.size == 1, '%s: gives %s', msg, got)
        close(float(got[0]), want, 1e-5 * max(1, abs(want)), '%s of %s and %s' % (msg, c['op'], c['oq']))
        return '%s %s %s' % (msg, c['op'], c['oq'])
    f = METRICS[msg]
    want = float(f(A[0].copy(), B[0].copy()))
    L, M = FORMS[c['hp']](A[0]), FORMS[c['hq']](B[0])
    got = np.ravel(np.asarray(f(L, M), dtype=float))
    check(got.size == 1, '%s: gives %s', msg, got)
    tol = 1e-5 if 'single' in (c['hp'], c['hq']) else 1e-12
    close(float(got[0]), want, tol * max(1, abs(want)), '%s of %s and %s' % (msg, c['hp'], c['hq']))
    check(np.array_equal(np.ravel(np.asarray(L)), A[0]) and np.array_equal(np.ravel(np.asarray(M)), B[0]), '%s: the data were modified', msg)
    return None if c['hp'] == c['hq'] == 'same' else '%s %s %s' % (msg, c['hp'], c['hq'])
