"""C05 energy distance."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import cdist
from scipy.stats import rankdata
from sklearn.metrics.pairwise import cosine_distances, euclidean_distances, manhattan_distances

from pbt import oracles as O
from pbt.core import sub
from pbt.gen import (ANY_LABELS, OFFSETS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels,
                     pred_spec, train_spec, valid_prevalences)
from quantificationlib.multiclass.energy import CvMy, EDX, EDy

# name -> (what is given to the library, one pair of examples)
DIST = {
    'euclidean': (euclidean_distances, lambda a, b: float(np.sqrt(((a - b) ** 2).sum()))),
    'manhattan': (manhattan_distances, lambda a, b: float(np.abs(a - b).sum())),
    'squared': (lambda A, B: euclidean_distances(A, B, squared=True), lambda a, b: float(((a - b) ** 2).sum())),
    'cosine': (cosine_distances, None),
    'root': (lambda A, B: np.sqrt(manhattan_distances(A, B)), lambda a, b: float(np.sqrt(np.abs(a - b).sum()))),
}


def pair(name):
    if name == 'cosine':
        def f(a, b):
            na, nb = np.sqrt((a * a).sum()), np.sqrt((b * b).sum())
            return 1.0 if na == 0 or nb == 0 else float(max(0.0, 1 - (a * b).sum() / (na * nb)))
        return f
    return DIST[name][1]


def mean_dist(A, B, f):
    return sum(f(a, b) for a in A for b in B) / (len(A) * len(B))


def objective(K, Kt, p):
    """Energy distance between the mixture and the bag, without the part that does not depend on p."""
    return 2 * p @ Kt - p @ K @ p


def judge(p, groups, T, f, msg, floor=0.0):
    K = np.array([[mean_dist(a, b, f) for b in groups] for a in groups])
    Kt = np.array([mean_dist(a, T, f) for a in groups])
    return judge_matrices(p, K, Kt, msg, floor)


def judge_matrices(p, K, Kt, msg, floor=0.0):
    k = len(K)
    valid_prevalences(p, k, msg, 1e-6)
    best = O.min_quadratic(-K, -Kt, k)[0]
    got = objective(K, Kt, p)
    scale = max(K.max(), Kt.max())
    check(got <= best + 1e-7 * scale + floor, '%s: energy distance %.12g, the best is %.12g (prevalences %s)', msg, got, best, p)
    w = np.linalg.eigvalsh((lambda N: -N.T @ K @ N)(np.vstack([np.eye(k - 1), -np.ones(k - 1)])))
    return 'one solution' if w.min() > 1e-6 * scale else 'flat'


@st.composite
def x_cases(draw):
    ts = draw(train_spec(2, 4, 1, 7))
    k = ts['k']
    ts['scale'] = draw(st.sampled_from([1.0, 1.0, 1e-6, 1e3, 1e9]))
    dist = draw(st.sampled_from(sorted(set(DIST) - {'cosine'})))
    if dist in ('manhattan', 'root') and ts['scale'] == 1.0:
        ts['offset'] = draw(st.sampled_from(OFFSETS))
    return dict(ts=ts, dist=dist, kind=draw(st.sampled_from(ANY_LABELS)),
                same=draw(st.booleans()), bags=draw(st.lists(st.tuples(bag_counts(k, 0, 4), SEED), min_size=1, max_size=2)))


def twin(X, y, L, same):
    """Optionally, the last class has exactly the examples of the first one."""
    if not same or len(L) < 3:
        return X, y
    Z = X[y == L[0]]
    return np.vstack([X[y != L[-1]], Z]), np.concatenate([y[y != L[-1]], np.repeat(L[[-1]], len(Z))])


@sub('C05', 'edx', x_cases, quick=500, times=(8,), big=31,
     rule='EDX x distances x data (ties, tiny and huge scales, classes with the same examples) x bags; optimum by '
          'enumeration of the supports on own averages of the pairwise distances')
def edx(c):
    X, y = build_train(c['ts'], c['kind'])
    L = labels(c['kind'], c['ts']['k'])
    X, y = twin(X, y, L, c['same'])
    f = pair(c['dist'])
    q = EDX(distance=DIST[c['dist']][0])
    q.fit(X, y)
    for i, (cnt, s) in enumerate(c['bags']):
        T, _ = build_bag(c['ts'], cnt, s)
        shape = judge(q.predict(T), [X[y == v] for v in L], T, f, 'EDX %s bag %d' % (c['dist'], i),
                      1e-7 if c['dist'] == 'cosine' else 0.0)
    return c['dist'] + ' ' + shape


@st.composite
def y_cases(draw):
    ps = draw(pred_spec(2, 5, 1, 7))
    return dict(ps=ps, q=draw(st.sampled_from(['EDy', 'CvMy'])), dist=draw(st.sampled_from(['default'] + sorted(DIST))),
                kind=draw(st.sampled_from(ANY_LABELS)), same=draw(st.booleans()),
                bags=draw(st.lists(st.tuples(bag_counts(ps['k'], 0, 4), SEED), min_size=1, max_size=2)))


def ranks(M):
    """Average ranks, column by column."""
    R = np.zeros(M.shape)
    for j in range(M.shape[1]):
        for i in range(len(M)):
            less = np.sum(M[:, j] < M[i, j])
            R[i, j] = less + (np.sum(M[:, j] == M[i, j]) + 1) / 2
    return R


@sub('C05', 'edy', y_cases, quick=600, times=(8,), big=37,
     rule='EDy and CvMy (on the ranks of training and test predictions together, ties averaged) x distances x '
          'predictions x bags, as edx')
def edy(c):
    P, y = build_preds(c['ps'], c['kind'])
    L = labels(c['kind'], c['ps']['k'])
    P, y = twin(P, y, L, c['same'])
    name = 'manhattan' if c['dist'] == 'default' else c['dist']
    kw = {} if c['dist'] == 'default' else dict(distance=DIST[name][0])
    q = {'EDy': EDy, 'CvMy': CvMy}[c['q']](**kw)
    q.fit(None, y, predictions_train=P)
    for i, (cnt, s) in enumerate(c['bags']):
        T, _ = bag_preds(c['ps'], cnt, s)
        p = q.predict(None, predictions_test=T)
        A, B = P, T
        if c['q'] == 'CvMy':
            R = ranks(np.vstack([P, T]))
            A, B = R[:len(P)], R[len(P):]
        shape = judge(p, [A[y == v] for v in L], B, pair(name), '%s %s bag %d' % (c['q'], c['dist'], i),
                      1e-7 if name == 'cosine' else 0.0)
    return '%s %s' % (c['q'], shape)


@sub('C05', 'only_distances', x_cases, quick=300, times=(8,), big=18,
     rule='EDX on row numbers with a distance that looks the pair up in a matrix gives the estimate of EDX on the data; '
          'so does (euclidean) a translated and reflected copy of the data; compared when the optimum is unique')
def only_distances(c):
    c['ts']['scale'] = 1.0
    X, y = build_train(c['ts'], c['kind'])
    L = labels(c['kind'], c['ts']['k'])
    f = pair(c['dist'])
    cnt, s = c['bags'][0]
    T, _ = build_bag(c['ts'], cnt, s)
    q = EDX(distance=DIST[c['dist']][0])
    q.fit(X, y)
    p = q.predict(T)
    shape = judge(p, [X[y == v] for v in L], T, f, 'EDX', 1e-7)
    if shape == 'flat':
        return None
    Z = np.vstack([X, T])
    D = np.array([[f(a, b) for b in Z] for a in Z])
    ids = np.arange(len(Z), dtype=float)[:, None]
    q2 = EDX(distance=lambda A, B: D[np.ix_(A[:, 0].astype(int), B[:, 0].astype(int))])
    q2.fit(ids[:len(X)], y)
    k = len(L)
    K = np.array([[mean_dist(X[y == a], X[y == b], f) for b in L] for a in L])
    N = np.vstack([np.eye(k - 1), -np.ones(k - 1)])
    w = np.linalg.eigvalsh(-N.T @ K @ N)
    tol = 1e-7 * K.max() / w.min() if c['dist'] != 'cosine' else 1e-6 * K.max() / w.min()
    close(q2.predict(ids[len(X):]), p, max(tol, 1e-9), 'EDX on looked-up distances')
    if c['dist'] == 'euclidean':
        q3 = EDX(distance=euclidean_distances)
        q3.fit(3.0 - X[:, ::-1], y)
        close(q3.predict(3.0 - T[:, ::-1]), p, max(tol * 10, 1e-8), 'EDX on moved data')
    return c['dist']


CDIST = {'euclidean': 'euclidean', 'manhattan': 'cityblock', 'squared': 'sqeuclidean'}


@st.composite
def size_cases(draw):
    k = draw(st.integers(2, 4))
    size = st.one_of(st.integers(1, 300), st.integers(1, 1100), st.sampled_from([63, 64, 100, 127, 128, 255, 256, 257, 300, 500, 512, 1000, 1024]))
    return dict(k=k, q=draw(st.sampled_from(['EDX', 'EDX', 'EDy', 'CvMy'])), dist=draw(st.sampled_from(sorted(CDIST))),
                train=[draw(size) for _ in range(k)], bag=draw(st.one_of(size, st.integers(1, 1500))), dims=draw(st.integers(1, 3)),
                skew=draw(st.booleans()), grid=draw(st.sampled_from([0, 0, 8])), kind=draw(st.sampled_from(ANY_LABELS)), seed=draw(SEED))


@sub('C05', 'sizes', size_cases, quick=200, thorough=4000,
     rule='EDX, EDy and CvMy on classes and bags of up to 1500 examples, optionally sorted by class; optimum by enumeration of '
          'the supports on own averages of the pairwise distances; non-trivial with a unique optimum')
def sizes(c):
    r = np.random.RandomState(c['seed'])
    k = c['k']
    C = labels(c['kind'], k)
    y = np.repeat(np.arange(k), c['train'])
    z = np.sort(r.choice(k, c['bag'], p=r.dirichlet(np.ones(k))))
    if not c['skew']:
        y, z = r.permutation(y), r.permutation(z)
    if c['q'] == 'EDX':
        draws = [r.randn(len(v), c['dims']) + v[:, None] * 1.2 for v in (y, z)]
    else:
        draws = []
        for v in (y, z):
            W = r.exponential(1, (len(v), k)) + 2 * np.eye(k)[v]
            draws.append(W / W.sum(axis=1, keepdims=True))
    if c['grid']:
        draws = [np.round(d * c['grid']) / c['grid'] for d in draws]
    A, T = draws
    f = DIST[c['dist']][0]
    if c['q'] == 'EDX':
        q = EDX(distance=f).fit(A, C[y])
        p = q.predict(T)
    else:
        q = {'EDy': EDy, 'CvMy': CvMy}[c['q']](distance=f)
        q.fit(None, C[y], predictions_train=A)
        p = q.predict(None, predictions_test=T)
        if c['q'] == 'CvMy':
            R = rankdata(np.vstack([A, T]), axis=0)
            A, T = R[:len(A)], R[len(A):]
    groups = [A[y == i] for i in range(k)]
    K = np.array([[cdist(a, b, CDIST[c['dist']]).mean() for b in groups] for a in groups])
    Kt = np.array([cdist(a, T, CDIST[c['dist']]).mean() for a in groups])
    shape = judge_matrices(p, K, Kt, '%s %s, %d examples and a bag of %d' % (c['q'], c['dist'], len(A), len(T)))
    return '%s %s' % (c['q'], c['dist']) if shape == 'one solution' else None
