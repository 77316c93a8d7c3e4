"""C23 regression quantifiers."""
import warnings

import numpy as np
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, RegressorMixin
from sklearn.linear_model import LinearRegression
from sklearn.neighbors import KNeighborsRegressor
from sklearn.tree import DecisionTreeRegressor

from pbt import oracles as O
from pbt.core import sub
from pbt.gen import (also, upto, more, ANY_LABELS, OFFSETS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels,
                     pred_spec, train_spec, valid_prevalences)
from pbt.stubs import digest
from quantificationlib.bag_generator import (CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator,
                                             PriorShift_BagGenerator)
from quantificationlib.multiclass.regression import REGX, REGy

GENERATORS = {'prior': PriorShift_BagGenerator, 'covariate': CovariateShift_BagGenerator, 'both': PriorAndCovariateShift_BagGenerator}


class RecReg(BaseEstimator, RegressorMixin):
    """Arbitrary outputs (below zero and above one too) that depend on all that it was given; records its data."""
    LOG = []

    def __init__(self, low=-0.5, high=1.5):
        self.low = low
        self.high = high

    def fit(self, X, y):
        RecReg.LOG.append((np.array(X), np.array(y)))
        self.key_ = digest(X, y)
        return self

    def predict(self, X):
        z = np.array([np.sin(29 * (self.key_ + digest(row))) for row in np.asarray(X)])
        return self.low + (self.high - self.low) * (z + 1) / 2


@st.composite
def reg_params(draw):
    return dict(gen=draw(st.sampled_from(['prior', 'prior', 'covariate', 'both'])), n=draw(st.integers(2, more(14, 60))),
                size=draw(st.one_of(st.none(), st.integers(1, upto(40)))), gseed=draw(st.integers(0, 2 ** 31 - 1)),
                bins=draw(also([1, 2, 3, 5, 8], [16, 40])), strategy=draw(st.sampled_from(['default', 'equal_width', 'equal_count', 'normal'])),
                reg=draw(st.sampled_from(['rec', 'rec', 'rec', 'lin', 'tree', 'knn', 'glm'])),
                span=draw(st.sampled_from([[-0.5, 1.5], [0.0, 1.0], [-1.0, 0.05], [0.5, 3.0]])), before=draw(st.booleans()))


def regressor(r):
    return {'rec': lambda: RecReg(*r['span']), 'lin': LinearRegression, 'tree': lambda: DecisionTreeRegressor(random_state=0),
            'knn': lambda: KNeighborsRegressor(2), 'glm': lambda: None}[r['reg']]()


class Glm:
    def fit(self, A, b):
        import statsmodels.api as sm
        self.m = sm.GLM(endog=b, exog=A, family=sm.families.Binomial())
        self.r = self.m.fit()
        return self

    def predict(self, A):
        return np.atleast_1d(self.m.predict(params=self.r.params, exog=A))


def judge(c, A, y, k, rng, make, default, fit, asks):
    """A (n, d): the described columns of the training set; asks: list of (function, columns of the bag)."""
    r = c['r']
    strat = default if r['strategy'] == 'default' else r['strategy']
    E = []
    for j in range(A.shape[1]):
        if not strat.startswith('equal') and not O.spread(A[:, j], y, strat):
            return None
        e = O.edges(A[:, j], y, r['bins'], strat, rng)
        if strat != 'equal_count' and any(O.near_edge(B[:, j], e) for B in [A] + [b for _, b in asks]):
            return None
        E.append(e)

    def show(B):
        return np.concatenate([O.hist(B[:, j], E[j]) for j in range(len(E))])
    own_gen = GENERATORS[r['gen']](n_bags=r['n'], bag_size=r['size'], random_state=r['gseed'])
    prev, idx = own_gen.generate_bags(A, y)
    D = np.array([show(A[i]) for i in idx.T])
    user = regressor(r)
    kw = dict(bag_generator=GENERATORS[r['gen']](n_bags=r['n'], bag_size=r['size'], random_state=r['gseed']), n_bins=r['bins'],
              regression_estimator=user)
    if r['strategy'] != 'default':
        kw['bin_strategy'] = r['strategy']
    q = make(**kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        own = []
        try:
            for t in ([1] if k == 2 else range(k)):
                own.append((Glm() if user is None else regressor(r)).fit(D, prev[t]))
            outs = [np.array([float(np.ravel(m.predict(show(B).reshape(1, -1)))[0]) for m in own]) for _, B in asks]
        except Exception as err:       # separable data or a perfect fit: the regression of statsmodels gives up
            if r['reg'] != 'glm':
                raise
            return None
        RecReg.LOG.clear()
        fit(q)
        log = list(RecReg.LOG)
        if r['reg'] == 'rec':
            check(len(log) == len(own), '%d regressors for %d classes', len(log), k)
            for t, (a, b) in enumerate(log):
                close(a, D, 1e-12, 'histograms of the bags')
                close(b, prev[1] if k == 2 else prev[t], 1e-12, 'prevalences of the bags')
            check(not hasattr(user, 'key_'), 'the regressor of the user was fitted')
        check(np.array_equal(q.classes_, np.unique(y)), 'classes_ are %s', q.classes_)
        for (f, B), v in zip(asks, outs):
            v = np.clip([1 - v[0], v[0]] if k == 2 else v, 0, 1)
            if not np.isfinite(v).all():
                return None
            if v.sum() < 1e-9:
                try:
                    p = f(q)
                except ValueError as err:
                    check('all 0' in str(err), '%s', err)
                    continue
                valid_prevalences(np.asarray(p), k, 'bag without any class', 1e-6)
                continue
            p = f(q)
            valid_prevalences(np.asarray(p), k, 'estimate', 1e-6)
            # trees and neighbours split on the last bit
            if r['reg'] in ('rec', 'lin', 'glm', 'tree', 'knn'):
                close(p, v / v.sum(), 1e-5 if r['reg'] in ('glm', 'lin') else 1e-6, 'estimate with %s' % r['reg'])
        check(not RecReg.LOG[len(log):], 'predict trains regressors')
    return r['bins'] > 1 and '%s %s %s %d' % (r['reg'], r['gen'], strat, k)


@st.composite
def x_cases(draw):
    ts = draw(train_spec(2, 4, 1, 12))
    ts['offset'] = draw(st.sampled_from(OFFSETS))
    return dict(ts=ts, r=draw(reg_params()), kind=draw(st.sampled_from(ANY_LABELS)),
                bags=draw(st.lists(st.tuples(bag_counts(ts['k']), SEED), min_size=1, max_size=3)), far=draw(st.booleans()))


@sub('C23', 'features', x_cases, quick=700, big=43,
     rule='REGX x bag generators x bins x regressors (arbitrary recorded ones, real ones, the default one); oracle: bags of a fresh '
          'generator, histograms counted example by example, one regressor per class, normalised outputs; non-trivial with '
          'two or more bins')
def features(c):
    X, y = build_train(c['ts'], c['kind'])
    k = c['ts']['k']

    def fit(q):
        if c['r']['before']:
            q.fit(X[::-1] * 2 + 1, y)
            RecReg.LOG.clear()
        X0, y0 = X.copy(), y.copy()
        check(q.fit(X, y) is q, 'fit does not return the quantifier')
        check(np.array_equal(X, X0) and np.array_equal(y, y0), 'fit modified the data')
    asks = []
    for cnt, s in c['bags']:
        T = build_bag(c['ts'], cnt, s)[0] * (5 if c['far'] else 1)
        asks.append((lambda q, T=T: q.predict(T), T))
    return judge(c, X, y, k, None, REGX, 'normal', fit, asks)


@st.composite
def y_cases(draw):
    ps = draw(pred_spec(2, 4, 1, 12))
    return dict(ps=ps, r=draw(reg_params()), kind=draw(st.sampled_from(ANY_LABELS)), reps=draw(st.sampled_from([1, 1, 1, 2, 3])),
                bags=draw(st.lists(st.tuples(bag_counts(ps['k']), SEED), min_size=1, max_size=3)))


@sub('C23', 'predictions', y_cases, quick=700, big=43,
     rule='the same for REGy on predictions (repeated blocks too)')
def predictions(c):
    P, y = build_preds(c['ps'], c['kind'])
    k = c['ps']['k']
    L = list(labels(c['kind'], k))
    rank = np.argsort(np.argsort([L.index(v) for v in y], kind='stable'))
    blocks = [P] + [build_preds(dict(c['ps'], seed=(c['ps']['seed'] + j) % 2 ** 32, order=True), c['kind'])[0][rank] for j in range(1, c['reps'])]
    P, y_ext = np.vstack(blocks), np.tile(y, c['reps'])
    cols = slice(0, 1 if k == 2 else k)

    def fit(q):
        if c['r']['before']:
            q.fit(None, y[::-1], predictions_train=P[:len(y)])
            RecReg.LOG.clear()
        P0 = P.copy()
        check(q.fit(None, y, predictions_train=P) is q, 'fit does not return the quantifier')
        check(np.array_equal(P, P0), 'fit modified the predictions')
    asks = []
    for cnt, s in c['bags']:
        T = bag_preds(c['ps'], cnt, s)[0]
        asks.append((lambda q, T=T: q.predict(None, predictions_test=T), T[:, cols]))
    return judge(c, P[:, cols], y_ext, k, [0, 1], REGy, 'equal_width', fit, asks)
