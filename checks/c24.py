"""C24 proportion-weighted nearest neighbours."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import cdist

from pbt import oracles as O
from pbt.core import sub
from pbt.gen import (more, ANY_LABELS, OFFSETS, SEED, bag_counts, build_bag, build_train, check, close, labels, train_spec, valid_prevalences)
from quantificationlib.estimators.weighted_knn import PWK
from quantificationlib.multiclass.knn import PWKQuantifier

METRICS = {'default': ({}, dict(metric='euclidean')), 'p1': (dict(p=1), dict(metric='cityblock')),
           'p3': (dict(p=3), dict(metric='minkowski', p=3)), 'manhattan': (dict(metric='manhattan'), dict(metric='cityblock')),
           'chebyshev': (dict(metric='chebyshev'), dict(metric='chebyshev')),
           'euclidean': (dict(metric='euclidean'), dict(metric='euclidean')),
           'canberra': (dict(metric='canberra'), dict(metric='canberra'))}


class Tie(Exception):
    pass


def brute(X, idx, k, T, n, how):
    """Shares of the classes among the n nearest; Tie when the limit of the neighbourhood is not clear."""
    w = 1 - np.bincount(idx, minlength=k) / len(idx)
    D = cdist(T, X, **METRICS[how][1])
    out = np.zeros((len(T), k))
    for i, d in enumerate(D):
        o = np.argsort(d, kind='stable')
        near = list(o[:n])
        if n < len(o) and d[o[n]] - d[o[n - 1]] <= 1e-7 * max(d[o[n]], 1e-300):
            tied = np.where(np.abs(d - d[o[n]]) <= 1e-7 * max(d[o[n]], 1e-300))[0]
            if len(set(idx[tied])) > 1:
                raise Tie()      # any of them may be a neighbour
        for j in near:
            out[i, idx[j]] += w[idx[j]]
    return out


@st.composite
def cases(draw):
    ts = draw(train_spec(2, 5, 1, 12))
    n = sum(ts['counts'])
    how = draw(st.sampled_from(sorted(METRICS)))
    if how in ('p1', 'manhattan', 'chebyshev'):      # the euclidean distance of the library underneath loses digits
        ts['offset'] = draw(st.sampled_from(OFFSETS))
    return dict(ts=ts, n=draw(st.integers(1, min(n, more(15, 60)))), how=how, kind=draw(st.sampled_from(ANY_LABELS)),
                algorithm=draw(st.sampled_from(['default', 'auto', 'brute', 'kd_tree', 'ball_tree'])),
                bag=draw(bag_counts(ts['k'])), seed=draw(SEED), change=draw(st.booleans()), jobs=draw(st.sampled_from([None, None, 1])))


@sub('C24', 'classifier', cases, quick=1500, big=93,
     rule='neighbours x metrics x search algorithms x labels x unbalanced classes (ties of values too); oracle: brute force with '
          'weights 1 - share of the class; examples with an unclear neighbourhood are not decided; non-trivial with two or '
          'more neighbours')
def classifier(c):
    X, y = build_train(c['ts'], c['kind'])
    k = c['ts']['k']
    L = list(labels(c['kind'], k))
    idx = np.array([L.index(v) for v in y])
    T = build_bag(c['ts'], c['bag'], c['seed'])[0]
    kw = dict(METRICS[c['how']][0], n_jobs=c['jobs'])
    if c['algorithm'] != 'default' and not (c['how'] == 'canberra' and c['algorithm'] == 'kd_tree'):
        kw['algorithm'] = c['algorithm']
    e = PWK(n_neighbors=c['n'], **kw)
    if c['change']:
        e = PWK(n_neighbors=min(len(y), c['n'] + 2), **dict(kw, n_jobs=None)).fit(X[::-1], y[::-1])
        e.set_params(n_neighbors=c['n'])
    X0, y0 = X.copy(), y.copy()
    check(e.fit(X, y) is e, 'fit does not return the classifier')
    check(np.array_equal(X, X0) and np.array_equal(y, y0), 'fit modified the data')
    check(np.array_equal(e.classes_, L), 'classes_ are %s', e.classes_)
    shown = False
    for what, D in (('other data', T), ('training data', X), ('one example', T[:1])):
        try:
            S = brute(X, idx, k, D, c['n'], c['how'])
        except Tie:
            continue
        if (S.sum(axis=1) == 0).any():
            continue
        S = S / S.sum(axis=1, keepdims=True)
        got = np.asarray(e.predict_proba(D))
        close(got, S, 1e-9, 'shares of the neighbours, %s' % what)
        crisp = np.asarray(e.predict(D))
        check(crisp.shape == (len(D),), '%s: shape of the classes %s', what, crisp.shape)
        pos = np.array([L.index(v) for v in crisp])
        check((S[np.arange(len(D)), pos] >= S.max(axis=1) - 1e-9).all(), '%s: not the class of largest share', what)
        shown = True
    return shown and c['n'] > 1 and '%s %d' % (c['how'], k)


@sub('C24', 'unbalanced', lambda: st.fixed_dictionaries(dict(
    big=st.integers(200, 5000), small=st.lists(st.integers(1, 3), min_size=1, max_size=3), n=st.integers(1, 7), where=st.integers(0, 3),
    near=st.booleans(), kind=st.sampled_from(ANY_LABELS), seed=SEED)), quick=60, thorough=500,
    rule='one class with nearly all the examples (weights of 1/5000 and less): oracle as before; non-trivial with two or more neighbours')
def unbalanced(c):
    cnt = list(c['small'])
    cnt.insert(min(c['where'], len(cnt)), c['big'])
    idx = np.repeat(np.arange(len(cnt)), cnt)
    r = np.random.RandomState(c['seed'])
    r.shuffle(idx)
    X = r.normal(size=(len(idx), 2))
    if not c['near']:
        X += 4.0 * (cnt[0] != c['big']) * idx[:, None]
    L = np.array(labels(c['kind'], len(cnt)))
    e = PWK(n_neighbors=c['n']).fit(X, L[idx])
    rare = idx != np.argmax(cnt)
    T = np.vstack([X[rare], X[:20], r.normal(size=(10, 2))])
    try:
        S = brute(X, idx, len(cnt), T, c['n'], 'euclidean')
    except Tie:
        return None
    S = S / S.sum(axis=1, keepdims=True)
    close(np.asarray(e.predict_proba(T)), S, 1e-9, 'shares of the neighbours')
    pos = [L.tolist().index(v) for v in np.asarray(e.predict(T)).tolist()]
    check((S[np.arange(len(T)), pos] >= S.max(axis=1) - 1e-9).all(), 'not the class of largest share')
    return c['n'] > 1 and '%d classes' % len(cnt)


@sub('C24', 'quantifier', cases, quick=900, big=56,
     rule='the quantifier on top: crisp predictions of the brute force, confusion matrix of the training set, correction in closed '
          'form (two classes) or the best prevalences for the L1 distance; ties of classes are not decided')
def quantifier(c):
    X, y = build_train(c['ts'], c['kind'])
    k = c['ts']['k']
    L = list(labels(c['kind'], k))
    idx = np.array([L.index(v) for v in y])
    T = build_bag(c['ts'], c['bag'], c['seed'])[0]
    try:
        S, R = brute(X, idx, k, X, c['n'], c['how']), brute(X, idx, k, T, c['n'], c['how'])
    except Tie:
        return None
    for M in (S, R):
        o = np.sort(M, axis=1)
        if (o[:, -1] - o[:, -2] <= 1e-9).any():
            return None
    A = np.array([np.bincount(S.argmax(axis=1)[idx == i], minlength=k) / np.sum(idx == i) for i in range(k)]).T
    t = np.bincount(R.argmax(axis=1), minlength=k) / len(T)
    q = PWKQuantifier(n_neighbors=c['n'], **METRICS[c['how']][0])
    if c['change']:
        q.fit(X + 1, y[::-1])
        q.predict(T)
    q.fit(X, y)
    for again in range(2):
        p = np.asarray(q.predict(T))
        valid_prevalences(p, k, 'PWKQuantifier', 1e-6)
        if k == 2:
            d = A[1, 1] - A[1, 0]
            if abs(abs(d) - 0.001) < 1e-9:
                return None
            v = np.clip((t[1] - A[1, 0]) / d, 0, 1) if abs(d) > 0.001 else t[1]
            close(p, [1 - v, v], 1e-9, 'PWKQuantifier')
        else:
            O.optimal(p, A, t, 'L1', 'PWKQuantifier')
    return c['n'] > 1 and '%s %d' % (c['how'], k)
