"""C25 De-Bias."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import sub
from pbt.gen import (also, upto, ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels, pred_spec,
                     train_spec, valid_prevalences)
from pbt.stubs import Scripted
from quantificationlib.binary.debias import DeBias


def published(pos, y01, t):
    """Prior + (mean of the bag - prior) / Vt, Vt the mean squared deviation from the prior over its greatest value."""
    n = len(y01)
    prior = sum(y01) / n
    vt = sum((p - prior) ** 2 for p in pos) / len(pos) / (prior * (1 - prior))
    m = sum(t) / len(t)
    if vt < 1e-12:
        return None
    return min(1.0, max(0.0, prior + (m - prior) / vt)), vt


@st.composite
def cases(draw):
    ps = draw(pred_spec(2, 2, 1, 20))
    return dict(ps=ps, kind=draw(st.sampled_from(ANY_LABELS)), reps=draw(also([1, 1, 2, 3], [9])),
                bags=draw(st.lists(st.tuples(bag_counts(2, 0, 15), SEED), min_size=1, max_size=4)), twice=draw(st.booleans()))


@sub('C25', 'formula', cases, quick=2500, big=156,
     rule='training predictions (repeated blocks, ties, crisp ones) x bags x labels against the published formula; non-trivial when '
          'the correction changes the mean of the bag')
def formula(c):
    P, y = build_preds(c['ps'], c['kind'])
    L = labels(c['kind'], 2)
    y01 = [1 if v == L[1] else 0 for v in y]
    for j in range(1, c['reps']):
        P = np.vstack([P, bag_preds(c['ps'], c['ps']['counts'], c['ps']['seed'] ^ j)[0]])
    q = DeBias()
    if c['twice']:
        q.fit(None, y[::-1], predictions_train=P[:len(y)] ** 2)
    P0 = P.copy()
    check(q.fit(None, y, predictions_train=P) is q, 'fit does not return the quantifier')
    check(np.array_equal(q.classes_, L), 'classes_ are %s', q.classes_)
    shown = False
    for cnt, s in c['bags']:
        T, _ = bag_preds(c['ps'], cnt, s)
        T0 = T.copy()
        p = q.predict(None, predictions_test=T)
        check(np.array_equal(T, T0) and np.array_equal(P, P0), 'the predictions were modified')
        valid_prevalences(p, 2, 'DeBias', 1e-9)
        w = published(P[:, 1].tolist(), y01, T[:, 1].tolist())
        if w is not None:
            close(p, [1 - w[0], w[0]], 1e-9 * max(1, 1 / w[1]), 'DeBias')
            shown |= abs(w[0] - T[:, 1].mean()) > 1e-6
    return shown and '%s' % c['kind']


@st.composite
def calibrated(draw):
    g = draw(st.integers(2, 5))
    return dict(pos=draw(st.lists(st.integers(0, upto(6)), min_size=g, max_size=g)), neg=draw(st.lists(st.integers(0, upto(6)), min_size=g, max_size=g)),
                a=draw(st.integers(0, 12)), kind=draw(st.sampled_from(ANY_LABELS)), seed=draw(SEED))


@sub('C25', 'calibrated', calibrated, quick=1000, big=62,
     rule='probabilities equal to the share of positives in their group: any change of the class proportions of the training set is '
          'recovered exactly, the training set included; non-trivial when the groups differ')
def calibrated_check(c):
    pos, neg = np.array(c['pos']), np.array(c['neg'])
    if pos.sum() == 0 or neg.sum() == 0:
        return None
    L = labels(c['kind'], 2)
    tot = pos + neg
    share = np.where(tot > 0, pos / np.maximum(tot, 1), 0)
    groups = np.concatenate([np.repeat(np.arange(len(tot)), pos), np.repeat(np.arange(len(tot)), neg)])
    y = np.array([1] * pos.sum() + [0] * neg.sum())
    o = np.random.RandomState(c['seed']).permutation(len(y))
    P = np.column_stack([1 - share[groups], share[groups]])[o]
    q = DeBias().fit(None, L[y[o]], predictions_train=P)
    if np.ptp(share[tot > 0]) < 1e-9:
        valid_prevalences(q.predict(None, predictions_test=P), 2, 'without information', 1e-9)
        return None
    prior = np.mean(y == 1)
    vt = np.mean((share[groups] - prior) ** 2) / (prior * (1 - prior))
    tol = 1e-9 / min(1, vt)
    close(q.predict(None, predictions_test=P), [np.mean(y == 0), np.mean(y == 1)], tol, 'the training set')
    # positives and negatives each repeated: the class-conditional distributions do not change
    a, b = c['a'], 12 - c['a']
    ra, rb = a * neg.sum(), b * pos.sum()
    g = np.gcd(ra, rb)
    T = np.concatenate([np.repeat(groups[y == 1], ra // g), np.repeat(groups[y == 0], rb // g)])
    if len(T) > 200000:
        return None
    T = np.column_stack([1 - share[T], share[T]])
    close(q.predict(None, predictions_test=T), [b / 12, a / 12], tol, 'a change of %d/12' % a)
    return '%d groups' % np.sum(tot > 0)


@st.composite
def models(draw):
    return dict(ts=draw(train_spec(2, 2, 2, 12)), kind=draw(st.sampled_from(ANY_LABELS)), gain=draw(st.sampled_from([0.3, 2.0])),
                shared=draw(st.booleans()), bag=draw(bag_counts(2)), seed=draw(SEED))


@sub('C25', 'classifiers', models, quick=500, big=31, rule='the formula with classifiers instead of predictions')
def classifiers(c):
    X, y = build_train(c['ts'], c['kind'])
    X = X / c['ts']['scale']
    L = labels(c['kind'], 2)
    T = build_bag(c['ts'], c['bag'], c['seed'])[0] / c['ts']['scale']
    a = Scripted(gain=c['gain'])
    b = a if c['shared'] else Scripted(gain=c['gain'] + 1)
    q = DeBias(estimator_train=a, estimator_test=b).fit(X, y)
    A = Scripted(gain=c['gain']).fit(X, y).predict_proba(X)
    B = Scripted(gain=c['gain'] + (0 if c['shared'] else 1)).fit(X, y).predict_proba(T)
    w = published(A[:, 1].tolist(), [1 if v == L[1] else 0 for v in y], B[:, 1].tolist())
    p = q.predict(T)
    valid_prevalences(p, 2, 'DeBias', 1e-9)
    close(p, [1 - w[0], w[0]], 1e-9 * max(1, 1 / w[1]), 'DeBias')
    return True
