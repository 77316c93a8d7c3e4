"""C07 expectation-maximisation."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import sub
from pbt.gen import ANY_LABELS, SEED, bag_counts, bag_preds, build_preds, check, close, labels, pred_spec, valid_prevalences
from pbt.stubs import Carrier
from quantificationlib.multiclass.em import EM


def step(P, p, tr):
    W = P * (p / tr)
    W = W / W.sum(axis=1, keepdims=True)
    return W.mean(axis=0)


def loglik(P, p, tr):
    return np.sum(np.log((P * (p / tr)).sum(axis=1)))


@st.composite
def cases(draw):
    ps = draw(pred_spec(2, 6, 1, 14))
    k = ps['k']
    return dict(ps=ps, kind=draw(st.sampled_from(ANY_LABELS)), eps=draw(st.sampled_from([1e-4, 1e-2, 1e-8, 1e-3, 0.2])),
                max_iter=draw(st.sampled_from([1, 3, 9, 10, 11, 25, 1000, 1000, 1000])),
                route=draw(st.sampled_from(['predictions', 'estimator', 'repeated'])),
                bags=draw(st.lists(st.tuples(bag_counts(k, 0, 12), SEED), min_size=1, max_size=3)))


@sub('C07', 'trajectory', cases, quick=1200, big=75,
     rule='EM x predictions (one-hot and tied rows included) x tolerances x iteration limits x bags: the answer must be '
          'the iterate, from the training prevalences, at which the documented rule stops (change at most epsilon and '
          'ten iterations done, or the limit); non-trivial when it moves away from the training prevalences')
def trajectory(c):
    P, y = build_preds(c['ps'], c['kind'])
    k = c['ps']['k']
    L = labels(c['kind'], k)
    tr = np.array([np.sum(y == v) for v in L]) / len(y)
    if c['route'] == 'estimator':
        e = Carrier()
        q = EM(e, e, epsilon=c['eps'], max_iter=c['max_iter'])
        q.fit(P, y)
    else:
        q = EM(epsilon=c['eps'], max_iter=c['max_iter'])
        q.fit(None, y, predictions_train=P if c['route'] == 'predictions' else np.vstack([P, P, P]))
    moved = False
    for i, (cnt, s) in enumerate(c['bags']):
        T, _ = bag_preds(c['ps'], cnt, s)
        T0 = T.copy()
        p = q.predict(T) if c['route'] == 'estimator' else q.predict(None, predictions_test=T)
        check(np.array_equal(T, T0), 'EM modified the predictions of the bag')
        valid_prevalences(p, k, 'EM bag %d' % i, 1e-9)
        it, cur = 0, tr
        ok, prev = False, None
        while it < c['max_iter']:
            prev, cur = cur, step(T, cur, tr)
            it += 1
            change = np.abs(cur - prev).mean()
            same = np.abs(cur - p).max() <= 1e-9
            if same and it >= min(10, c['max_iter']) and (it == c['max_iter'] or change <= c['eps'] * (1 + 1e-9) + 1e-13):
                ok = True
                break
            if it >= 10 and change < c['eps'] * (1 - 1e-9) - 1e-13:
                break
        if not ok:
            check(False, 'EM bag %d: %s is not the iterate where it should stop (after %d iterations: %s)', i, p, it, cur)
        check(loglik(T, p, tr) >= loglik(T, tr, tr) - 1e-9 * len(T), 'EM bag %d: less likely than the training prevalences', i)
        moved |= bool(np.abs(p - tr).max() > 1e-3)
    return '%s, limit %s' % (c['route'], 'low' if c['max_iter'] <= 25 else 'high') if moved else None


@st.composite
def ml_cases(draw):
    ps = draw(pred_spec(2, 4, 3, 12))
    ps['grid'] = 0
    ps['conc'] = draw(st.sampled_from([1.0, 3.0, 20.0]))
    return dict(ps=ps, kind=draw(st.sampled_from(ANY_LABELS)), cnt=draw(bag_counts(ps['k'], 0, 12)), seed=draw(SEED))


@sub('C07', 'maximum', ml_cases, quick=400, big=25,
     rule='EM run to a tiny tolerance: no vector of a fine grid, vertex or perturbation has a higher likelihood than the '
          'answer; non-trivial when it moves away from the training prevalences')
def maximum(c):
    P, y = build_preds(c['ps'], c['kind'])
    k = c['ps']['k']
    L = labels(c['kind'], k)
    tr = np.array([np.sum(y == v) for v in L]) / len(y)
    q = EM(epsilon=1e-12, max_iter=20000)
    q.fit(None, y, predictions_train=P)
    T, _ = bag_preds(c['ps'], c['cnt'], c['seed'])
    p = q.predict(None, predictions_test=T)
    valid_prevalences(p, k, 'EM', 1e-9)
    ll = loglik(T, p, tr)
    r = np.random.RandomState(c['seed'])
    cand = [np.ones(k) / k, tr] + list(r.dirichlet(np.ones(k), 200)) + list(r.dirichlet(np.ones(k) * 0.2, 100))
    for h in (0.3, 0.1, 0.03, 0.01, 1e-3):
        for j in range(k):
            d = -p.copy()
            d[j] += 1
            cand.append(p + h * d)
            e = p.copy()
            e[j] *= 1 - h
            if e.sum() > 0:
                cand.append(e / e.sum())
    for v in cand:
        v = np.clip(v, 1e-300, None)
        v = v / v.sum()
        w = loglik(T, v, tr)
        check(w <= ll + 1e-5 * len(T), 'EM: log-likelihood %.9g at %s, but %.9g at %s', ll, p, w, v)
    return '%d classes' % k if np.abs(p - tr).max() > 1e-3 else None
