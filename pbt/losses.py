"""Objective of a prevalence vector for each method that optimises, so that two different answers to a problem with
several solutions can be compared.  The predictions/features are those of the case; the representations of the
histogram methods are the documented attributes train_distrib_ and test_distrib_ of the fitted object."""
import numpy as np
from scipy.spatial.distance import cdist
from scipy.stats import rankdata

from pbt import zoo
from pbt.oracles import affinity


def quantile_slices(x, w, q):
    """Average of the quantile function of the weighted sample on each of the q slices of [0, 1]."""
    o = np.argsort(x, kind='stable')
    x, w = np.asarray(x)[o], np.asarray(w, dtype=float)[o]
    F = np.r_[0, np.cumsum(w) / w.sum()]
    out = np.zeros(q)
    for j in range(q):
        lo, hi = j / q, (j + 1) / q
        out[j] = np.sum(x * np.clip(np.minimum(hi, F[1:]) - np.maximum(lo, F[:-1]), 0, None))
    return out * q


def sord_cost(x, w, t):
    """Area between the cumulative distributions of the weighted sample and of the bag."""
    pts = np.unique(np.r_[x, t])
    total = 0.0
    for a, b in zip(pts[:-1], pts[1:]):
        total += (b - a) * abs(np.sum(w[x <= a]) - np.mean(t <= a))
    return total


def weights(y, L, a):
    return np.where(y == L[1], a / np.sum(y == L[1]), (1 - a) / np.sum(y == L[0]))


def energy(groups, T, metric):
    K = np.array([[cdist(a, b, metric).mean() for b in groups] for a in groups])
    Kt = np.array([cdist(a, T, metric).mean() for a in groups])
    return lambda p: 2 * np.dot(p, Kt) - np.dot(p, np.dot(K, p))


def objective(spec, q, train, y, T):
    """Returns (f, slack): the loss of a prevalence vector and how much two answers may differ in it; or None when the
    method does not optimise.  q must have just answered T."""
    name, par = spec
    L = np.unique(y)
    if name == 'QUANTy':
        n = par['n_quantiles']
        x, t = train[:, 1], quantile_slices(T[:, 1], np.ones(len(T)), n)
        r = 1 if par['distance'] == 'l1' else 2
        return (lambda p: np.linalg.norm(quantile_slices(x, weights(y, L, p[1]), n) - t, r),
                8e-4 * n ** 1.5 / min(len(x), len(T)) + 6e-4 * np.abs(x).max())
    if name == 'SORDy':
        return lambda p: sord_cost(train[:, 1], weights(y, L, p[1]), T[:, 1]), 6e-5
    if name in ('EDX', 'EDy', 'CvMy'):
        A, B = train, T
        if name == 'CvMy':
            H = np.column_stack([rankdata(c) for c in np.vstack([train, T]).T])
            A, B = H[:len(train)], H[len(train):]
        f = energy([A[y == c] for c in L], B, 'euclidean' if name == 'EDX' else 'cityblock')
        return f, 2e-7 * max(1e-12, np.abs(f(np.ones(len(L)) / len(L))), cdist(A, B).max())
    M = getattr(q, 'train_distrib_', None)
    if name in ('AC', 'PAC', 'PWKQuantifier'):
        return None
    if M is None or isinstance(M, dict):
        return None
    M, t = np.array(M, dtype=float), np.ravel(np.array(q.test_distrib_, dtype=float))
    d = par.get('distance') or {'HDy': 'HD', 'HDX': 'HD', 'MMy': 'L1', 'FriedmanME': 'L2', 'ACOrdinal': 'L1'}.get(name, 'HD')
    if d == 'EMD':
        M, t, d = M[:-1], t[:-1], 'L1'
    if d == 'L1':
        return lambda p: np.abs(M @ p - t).sum(), 2e-5 * max(1, t.sum())
    if d == 'L2':
        return lambda p: np.sum((M @ p - t) ** 2), 2e-8 * max(1, t.sum())
    if d == 'HD':
        return lambda p: -affinity(M, t, p), 3e-4 * max(1, t.sum())
    g = zoo.DISTANCES[d]

    def f(p):
        return min(g(M[:, 1] * a + M[:, 0] * (1 - a), t) for a in np.clip(p[1] + np.linspace(-2e-5, 2e-5, 9), 0, 1))
    return f, 1e-6
