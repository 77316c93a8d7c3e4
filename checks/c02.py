"""C02 classify and count."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import sub
from pbt.gen import more, ANY_LABELS, SEED, bag_counts, bag_preds, check, close, labels, pred_spec
from pbt.stubs import Carrier
from quantificationlib.baselines.cc import CC, PCC


def fitted(cls, y):
    q = cls()
    q.fit(None, y)
    return q


@st.composite
def matrix_cases(draw):
    ps = draw(pred_spec(2, 7, 1, 3))
    return dict(ps=ps, bag=draw(bag_counts(ps['k'], 0, 15)), seed=draw(SEED), kind=draw(st.sampled_from(ANY_LABELS)),
                route=draw(st.sampled_from(['matrix', 'estimator', 'unfitted', 'both'])),
                dup=draw(st.integers(1, 3)))


def answer(c, cls, y, P):
    """The estimate by one of the ways of providing the predictions."""
    X = np.column_stack([P, np.arange(len(P))])
    if c['route'] == 'matrix':
        q = fitted(cls, y)
        p0 = P.copy()
        out = q.predict(None, predictions_test=P)
        check(np.array_equal(P, p0), 'the predictions were modified')
        return out
    n = len(y)
    Xt = np.zeros((n, P.shape[1] + 1))
    Xt[:, 0] = 1
    e = Carrier()
    if c['route'] == 'estimator':
        e.fit(Xt, y)
    q = cls(estimator_test=e)
    q.fit(Xt, y)
    check(e.n_fits_ == 1, 'the estimator was fitted %s times', e.n_fits_)
    if c['route'] == 'both':
        return q.predict(X[:, ::-1].copy(), predictions_test=P)
    return q.predict(X)


@sub('C02', 'cc_matrix', matrix_cases, quick=700, big=43, times=(8, 25, 60, 5000),
     rule='probability rows (with ties) x labels x routes; expected counts computed row by row, the first of the tied '
          'classes wins; non-trivial when at least two classes are assigned')
def cc_matrix(c):
    k = c['ps']['k']
    y = np.tile(labels(c['kind'], k), c['dup'])
    P, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    p = answer(c, CC, y, P)
    n = np.zeros(k)
    for row in P:
        best = 0
        for j in range(1, k):
            if row[j] > row[best]:
                best = j
        n[best] += 1
    close(p, n / len(P), 1e-12, 'CC (%s)' % c['route'])
    return c['route'] if (n > 0).sum() > 1 else None


@sub('C02', 'pcc_matrix', matrix_cases, quick=700, big=43, times=(8, 25, 60, 5000), rule='as cc_matrix; expected: mean of each column')
def pcc_matrix(c):
    k = c['ps']['k']
    y = np.tile(labels(c['kind'], k), c['dup'])
    P, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    p = answer(c, PCC, y, P)
    close(p, [sum(float(v) for v in P[:, j]) / len(P) for j in range(k)], 1e-12, 'PCC (%s)' % c['route'])
    return c['route'] if len(P) > 1 else None


@st.composite
def crisp_cases(draw):
    k = draw(st.integers(2, more(8, 6)))
    return dict(k=k, kind=draw(st.sampled_from(ANY_LABELS + (['float'] if k > 2 else []))), train=draw(st.permutations(list(range(k)))),
                pred=draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=40)),
                shape=draw(st.sampled_from(['1d', 'col'])), route=draw(st.sampled_from(['pred', 'estimator'])))


@sub('C02', 'cc_crisp', crisp_cases, quick=600, big=37, times=(8, 25, 60, 5000),
     rule='crisp labels of test examples (vector or one column, or returned by an estimator without probabilities) x '
          'label kinds; non-trivial when some class is predicted and some is not')
def cc_crisp(c):
    L = labels(c['kind'], c['k'])
    y = L[np.array(c['train'] * 2)]
    pred = L[np.array(c['pred'])]
    if c['route'] == 'pred':
        p = fitted(CC, y).predict(None, predictions_test=pred if c['shape'] == '1d' else pred.reshape(-1, 1))
    else:
        e = Carrier(crisp=True)
        q = CC(estimator_test=e)
        q.fit(np.eye(c['k'])[np.array(c['train'] * 2)], y)
        p = q.predict(np.eye(c['k'])[np.array(c['pred'])])
    close(p, [c['pred'].count(j) / len(pred) for j in range(c['k'])], 1e-12, 'CC with crisp predictions')
    return c['route'] if 1 <= len(set(c['pred'])) < c['k'] or c['k'] == 2 else 'all classes'


@st.composite
def onedim_cases(draw):
    v = st.one_of(st.sampled_from([0.0, 0.5, 1.0, 0.4999999, 0.5000001]), st.floats(0, 1))
    return dict(kind=draw(st.sampled_from(ANY_LABELS + ['float'])), v=draw(st.lists(v, min_size=1, max_size=30)),
                shape=draw(st.sampled_from(['1d', 'col'])), dtype=draw(st.sampled_from(['float64', 'float32'])))


@sub('C02', 'cc_onedim', onedim_cases, quick=500, big=31,
     rule='vectors or columns with the probability of the positive class x label kinds; 0.5 or more is positive; '
          'non-trivial when both classes are assigned')
def cc_onedim(c):
    L = labels(c['kind'], 2)
    v = np.array(c['v'], dtype=c['dtype'])
    pos = sum(1 for x in v if x >= 0.5) / len(v)
    arr = v if c['shape'] == '1d' else v.reshape(-1, 1)
    p = fitted(CC, L[[0, 1, 1]]).predict(None, predictions_test=arr)
    close(p, [1 - pos, pos], 1e-12, 'CC with one probability per example')
    return c['shape'] if 0 < pos < 1 else None
