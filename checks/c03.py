"""C03 adjusted counts."""
import numpy as np
from hypothesis import strategies as st

from pbt import oracles as O
from pbt.core import sub
from pbt.gen import (ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels,
                     pred_spec, train_spec, valid_prevalences)
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.estimators.weighted_knn import PWK
from quantificationlib.multiclass.knn import PWKQuantifier


def rates(kind, P, y, L):
    """Row c: what the classifier answers on the training examples of class c."""
    k = len(L)
    A = np.zeros((k, k))
    for i, c in enumerate(L):
        rows = [P[r] for r in range(len(y)) if y[r] == c]
        A[i] = observed(kind, rows, k)
    return A


def observed(kind, rows, k):
    if kind == 'PAC':
        return np.array([sum(float(r[j]) for r in rows) / len(rows) for j in range(k)])
    out = np.zeros(k)
    for r in rows:
        out[int(np.argmax(r))] += 1
    return out / len(rows)


def expected_binary(A, o):
    """None when the correction is at the limit of being applied."""
    d = A[1, 1] - A[0, 1]
    if abs(abs(d) - 0.001) < 1e-7:
        return None
    if abs(d) <= 0.001:
        return o
    p = min(1.0, max(0.0, (o[1] - A[0, 1]) / d))
    return np.array([1 - p, p])


def judge(p, A, o, distance, msg, cond_max=1e6):
    """Compares an estimate with the correction. Returns the shape."""
    k = len(o)
    valid_prevalences(p, k, msg, 1e-6)
    if k == 2:
        e = expected_binary(A, o)
        if e is None:
            return None
        d = abs(A[1, 1] - A[0, 1])
        close(p, e, 1e-11 / max(d, 0.001), msg)
        return 'binary' if d > 0.001 else 'binary, no correction'
    s = np.linalg.svd(A, compute_uv=False)
    if s[-1] > s[0] / cond_max:
        e = np.linalg.solve(A.T, o)
        clipped = e.min() < -1e-12
        e = np.clip(e, 0, None)
        e = e / e.sum()
        close(p, e, 1e-9 * s[0] / s[-1], msg + ' (inverse)')
        return 'inverse' + (', clipped' if clipped else '')
    if s[-1] > 1e-16 * s[0]:
        return None       # neither regular nor singular in floating point
    return optimal(p, A.T, o, distance, msg)


def optimal(p, M, o, distance, msg):
    O.optimal(p, M, o, distance, msg)
    return 'singular, ' + distance


@st.composite
def cases(draw):
    ps = draw(pred_spec(2, 5, 1, 14))
    k = ps['k']
    return dict(ps=ps, q=draw(st.sampled_from(['AC', 'PAC'])), kind=draw(st.sampled_from(ANY_LABELS)),
                distance=draw(st.sampled_from(['HD', 'L1', 'L2'])),
                same=draw(st.one_of(st.none(), st.tuples(st.integers(0, k - 1), st.integers(0, k - 1)))),
                never=draw(st.one_of(st.none(), st.none(), st.integers(0, k - 1))),
                bags=draw(st.lists(st.tuples(bag_counts(k), SEED), min_size=1, max_size=3)))


def kill(P, j):
    """The classifier never answers class j."""
    P = P.copy()
    P[:, j] = 0
    P[P.sum(axis=1) == 0, (j + 1) % P.shape[1]] = 1
    return P / P.sum(axis=1, keepdims=True)


@sub('C03', 'adjusted', cases, quick=1200, big=75,
     rule='class-conditional predictions x bags; rates that make the correction impossible included (a class never '
          'predicted, two classes with the same rates); oracle: own rates, binary formula, linear solve or the best '
          'value of the distance; non-trivial when the oracle decides all the bags')
def adjusted(c):
    P, y = build_preds(c['ps'], c['kind'])
    k = c['ps']['k']
    L = labels(c['kind'], k)
    if c['same'] is not None and c['same'][0] != c['same'][1]:
        i, j = c['same']
        rows = P[y == L[i]]
        P = np.vstack([P[y != L[j]], rows])
        y = np.concatenate([y[y != L[j]], np.repeat(L[[j]], len(rows))])
    if c['never'] is not None:
        P = kill(P, c['never'])
    q = {'AC': AC, 'PAC': PAC}[c['q']](distance=c['distance'])
    q.fit(None, y, predictions_train=P)
    A = rates(c['q'], P, y, L)
    shape = None
    for n, (cnt, seed) in enumerate(c['bags']):
        T, _ = bag_preds(c['ps'], cnt, seed)
        if c['never'] is not None:
            T = kill(T, c['never'])
        shape = judge(q.predict(None, predictions_test=T), A, observed(c['q'], T, k), c['distance'],
                      '%s bag %d' % (c['q'], n))
        if shape is None:
            return None
    return c['q'] + ' ' + shape


@st.composite
def recover_cases(draw):
    ps = draw(pred_spec(2, 6, 1, 10))
    return dict(ps=ps, q=draw(st.sampled_from(['AC', 'PAC'])), kind=draw(st.sampled_from(ANY_LABELS)),
                reps=draw(st.lists(st.integers(0, 4), min_size=ps['k'], max_size=ps['k'])))


@sub('C03', 'recover', recover_cases, quick=700, big=43,
     rule='test bag = the training predictions of class c repeated r_c times, so the observed counts are an exact '
          'mixture; the mixture must be recovered when the rates are independent (condition number below 1e5)')
def recover(c):
    P, y = build_preds(c['ps'], c['kind'])
    k = c['ps']['k']
    L = labels(c['kind'], k)
    reps = c['reps'] if sum(c['reps']) else [1] * k
    T = np.vstack([np.repeat(P[y == L[i]], reps[i], axis=0) for i in range(k)])
    w = np.array([reps[i] * np.sum(y == L[i]) for i in range(k)], dtype=float)
    A = rates(c['q'], P, y, L)
    s = np.linalg.svd(A, compute_uv=False)
    if s[-1] < s[0] / 1e5 or (k == 2 and abs(A[1, 1] - A[0, 1]) < 0.0011):
        return None
    q = {'AC': AC, 'PAC': PAC}[c['q']]().fit(None, y, predictions_train=P)
    close(q.predict(None, predictions_test=T), w / w.sum(), 1e-8, '%s does not recover the mixture' % c['q'])
    return '%s %d classes' % (c['q'], k)


@st.composite
def knn_cases(draw):
    ts = draw(train_spec(2, 4, 3, 14))
    k = ts['k']
    return dict(ts=dict(ts, grid=0), n=draw(st.integers(1, 9)), p=draw(st.sampled_from([1, 2, 3])),
                kind=draw(st.sampled_from(ANY_LABELS)),
                bags=draw(st.lists(st.tuples(bag_counts(k), SEED), min_size=1, max_size=3)))


@sub('C03', 'pwk', knn_cases, quick=400, big=25,
     rule='PWKQuantifier against the correction of the answers of a PWK classifier with the same parameters: binary '
          'formula or the best L1 value; non-trivial when the oracle decides all the bags')
def pwk(c):
    X, y = build_train(c['ts'], c['kind'])
    k = c['ts']['k']
    L = labels(c['kind'], k)
    n = min(c['n'], len(y))
    q = PWKQuantifier(n_neighbors=n, p=c['p'])
    q.fit(X, y)
    est = PWK(n_neighbors=n, p=c['p']).fit(X, y)

    def onehot(Z):
        return (est.predict(Z)[:, None] == L[None]).astype(float)
    A = rates('AC', onehot(X), y, L)
    shape = None
    for i, (cnt, seed) in enumerate(c['bags']):
        B, _ = build_bag(c['ts'], cnt, seed)
        o = observed('AC', onehot(B), k)
        p = q.predict(B)
        if k == 2:
            shape = judge(p, A, o, 'L1', 'PWKQuantifier bag %d' % i)
        else:
            valid_prevalences(p, k, 'PWKQuantifier bag %d' % i, 1e-5)
            shape = optimal(p, A.T, o, 'L1', 'PWKQuantifier bag %d' % i)
        if shape is None:
            return None
    return shape
