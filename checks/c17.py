"""C17 the optimisation kernel."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import cdist

from pbt import oracles as O
from pbt.core import sub
from pbt.gen import upto, more, SEED, check, close, simplex, norm, valid_prevalences
from quantificationlib.optimization import (compute_ed_param_test, compute_ed_param_train, compute_l2_param_train, dpofa, is_pd,
                                            nearest_pd, solve_ed, solve_hd, solve_l1, solve_l2)


@st.composite
def problem(draw):
    k = draw(st.integers(2, more(6, 3)))
    m = draw(st.integers(1, upto(16)))
    return dict(k=k, m=m, shape=draw(st.sampled_from(['dense', 'sparse', 'duplicated', 'onehot', 'cumulative', 'dependent'])),
                tests=draw(st.lists(st.tuples(st.sampled_from(['mixture', 'mixture', 'random', 'sparse', 'vertex']),
                                              simplex(k), SEED), min_size=1, max_size=5)),
                column=draw(st.booleans()), seed=draw(SEED))


def matrix(c):
    r = np.random.RandomState(c['seed'])
    m, k = c['m'], c['k']
    M = r.dirichlet(np.ones(m), k).T.reshape(m, k)
    s = c['shape']
    if s == 'sparse':
        M = np.where(r.uniform(size=(m, k)) < 0.6, 0, M)
        M[r.randint(0, m, k), np.arange(k)] += 0.1
        M = M / M.sum(axis=0)
    elif s == 'duplicated':
        M[:, -1] = M[:, 0]
    elif s == 'onehot':
        M = np.zeros((m, k))
        M[r.randint(0, m, k), np.arange(k)] = 1
    elif s == 'cumulative':
        M = np.cumsum(M, axis=0)
    elif s == 'dependent' and k > 2:
        M[:, -1] = M[:, :-1].mean(axis=1)
    return M


def targets(c, M):
    for how, v, seed in c['tests']:
        r = np.random.RandomState(seed)
        if how == 'mixture':
            t = M @ norm(v)
        elif how == 'vertex':
            t = M[:, r.randint(c['k'])]
        else:
            t = r.dirichlet(np.ones(c['m'])).reshape(-1)
            if how == 'sparse':
                t = np.where(r.uniform(size=c['m']) < 0.6, 0, t)
                t[r.randint(c['m'])] += 0.1
                t = t / t.sum()
            if c['shape'] == 'cumulative':
                t = np.cumsum(t)
        yield t


def warm(c, solve, distance):
    M = matrix(c)
    prob = None
    for i, t in enumerate(targets(c, M)):
        t0 = t.copy()
        prob, p = solve(train_distrib=M, test_distrib=t.reshape(-1, 1) if c['column'] else t, n_classes=c['k'], problem=prob)
        p = np.array(p, dtype=float)
        check(np.array_equal(t, t0), 'the distribution of the bag was modified')
        msg = '%s, call %d with a %s matrix' % (distance, i, c['shape'])
        valid_prevalences(p, c['k'], msg, 1e-5)
        O.optimal(p, M, t, distance, msg)
    return '%s, %d calls' % (c['shape'], len(c['tests']))


@sub('C17', 'l1', problem, quick=500, big=31, thorough=8000,
     rule='L1 problems (dense, sparse, duplicated or dependent columns, one-hot, cumulative), 1..5 targets with the problem of '
          'the previous call: the answer is in the simplex and not worse than the optimum of a linear program')
def l1(c):
    return warm(c, solve_l1, 'L1')


@sub('C17', 'hd', problem, quick=500, big=31, thorough=8000,
     rule='Hellinger problems, as l1; the optimum by multiplicative ascent from many points')
def hd(c):
    return warm(c, solve_hd, 'HD')


@sub('C17', 'l2', problem, quick=700, big=43, thorough=12000, rule='L2 problems, as l1; the optimum by enumeration of the supports')
def l2(c):
    M = matrix(c)
    M0 = M.copy()
    G, C, b = compute_l2_param_train(M, np.arange(c['k']))
    for i, t in enumerate(targets(c, M)):
        p = np.array(solve_l2(train_distrib=M, test_distrib=t.reshape(-1, 1) if c['column'] else t, G=G, C=C, b=b), dtype=float)
        msg = 'L2, call %d with a %s matrix' % (i, c['shape'])
        valid_prevalences(p, c['k'], msg, 1e-6)
        O.optimal(p, M, t, 'L2', msg)
    check(np.array_equal(M, M0), 'the distributions of the classes were modified')
    return c['shape']


@st.composite
def energy_case(draw):
    k = draw(st.integers(2, more(5, 3)))
    return dict(k=k, cnt=draw(st.lists(st.integers(1, more(6, 30)), min_size=k, max_size=k)), d=draw(st.integers(1, 3)),
                grid=draw(st.booleans()), twin=draw(st.booleans()), scale=draw(st.sampled_from([1.0, 1e-4, 1e5])),
                tests=draw(st.lists(st.tuples(st.integers(1, more(8, 40)), SEED), min_size=1, max_size=3)), seed=draw(SEED))


@sub('C17', 'energy', energy_case, quick=500, big=31, thorough=8000,
     rule='energy-distance parameters and solver on groups of points (ties, repeated groups, scales): averages of the '
          'pairwise distances, and an answer not worse than the optimum by enumeration of the supports')
def energy(c):
    r = np.random.RandomState(c['seed'])
    k = c['k']
    groups = {i: (r.normal(size=(n, c['d'])) + i) for i, n in enumerate(c['cnt'])}
    if c['grid']:
        groups = {i: np.round(g) for i, g in groups.items()}
    if c['twin'] and k > 2:
        groups[k - 1] = groups[0].copy()
    groups = {i: g * c['scale'] for i, g in groups.items()}
    n = np.array([[len(groups[i])] for i in range(k)], dtype=float)

    def dist(a, b):
        return cdist(a, b)
    K, G, C, b = compute_ed_param_train(dist, groups, list(range(k)), n)
    own = np.array([[cdist(groups[i], groups[j]).mean() for j in range(k)] for i in range(k)])
    close(K, own, 1e-9 * max(own.max(), 1e-12), 'average distances between classes')
    for m, s in c['tests']:
        rr = np.random.RandomState(s)
        T = np.vstack([groups[rr.randint(k)][[0]] for _ in range(m)]) + rr.normal(size=(m, c['d'])) * c['scale']
        a = compute_ed_param_test(dist, groups, T, K, list(range(k)), n)
        p = np.array(solve_ed(G=G, a=a, C=C, b=b), dtype=float)
        valid_prevalences(p, k, 'solve_ed', 1e-6)
        Kt = np.array([cdist(groups[i], T).mean() for i in range(k)])
        best = O.min_quadratic(-own, -Kt, k)[0]
        got = 2 * p @ Kt - p @ own @ p
        check(got <= best + 1e-7 * max(own.max(), Kt.max()), 'solve_ed: energy distance %.12g, the best is %.12g', got, best)
    return '%d classes%s' % (k, ', twin' if c['twin'] and k > 2 else '')


@st.composite
def symmetric(draw):
    n = draw(st.integers(1, more(6, 12)))
    kind = draw(st.sampled_from(['pd', 'indefinite', 'negative', 'singular', 'mixed']))
    return dict(n=n, kind=kind, logs=draw(st.lists(st.floats(-3, 3), min_size=n, max_size=n)),
                signs=draw(st.lists(st.booleans(), min_size=n, max_size=n)), seed=draw(SEED),
                scale=draw(st.sampled_from([1.0, 1e-6, 1e6])))


def sym(c):
    r = np.random.RandomState(c['seed'])
    n = c['n']
    Q = np.linalg.qr(r.normal(size=(n, n)))[0]
    w = 10.0 ** np.array(c['logs'])
    if c['kind'] == 'negative':
        w = -w
    elif c['kind'] == 'singular':
        w[0] = 0
    elif c['kind'] == 'indefinite':
        w[0] = -w[0]
    elif c['kind'] == 'mixed':
        w = np.where(c['signs'], w, -w)
    w = w * c['scale']
    A = (Q * w) @ Q.T
    return (A + A.T) / 2, w


@sub('C17', 'positive_definite', symmetric, quick=1500, big=93, thorough=20000,
     rule='symmetric matrices of a known spectrum: the test of positive definiteness agrees with the signs, the triangular '
          'factor reproduces the matrix or names the first minor that is not positive, the repair is positive definite, '
          'leaves definite matrices as they are and is as close as the projection otherwise; singular spectra are undecided')
def positive_definite(c):
    A, w = sym(c)
    A0 = A.copy()
    n = c['n']
    top = np.abs(w).max()
    sure = np.abs(w).min() > 1e-9 * top
    got = is_pd(A)
    if sure:
        check(bool(got) == bool((w > 0).all()), 'is_pd is %s for eigenvalues %s', got, w)
    info, R = dpofa(A)
    check(np.array_equal(A, A0), 'dpofa modified the matrix')
    if sure and (w > 0).all():
        check(info == 0, 'dpofa refuses a matrix of eigenvalues %s', w)
        U = np.triu(R)
        close(U.T @ U, A, 1e-9 * top, 'factor')
    elif sure:
        minors = [np.linalg.eigvalsh(A[:i, :i])[0] for i in range(1, n + 1)]
        if all(abs(m) > 1e-9 * top for m in minors):
            first = next(i for i, m in enumerate(minors) if m <= 0) + 1
            check(info == first, 'dpofa: the first minor that is not positive is %s, it says %s', first, info)
    B = np.array(nearest_pd(A.copy()), dtype=float)
    check(B.shape == A.shape and np.isfinite(B).all(), 'nearest_pd: %s', B)
    close(B, B.T, 1e-12 * top, 'nearest_pd is not symmetric')
    check(is_pd(B), 'nearest_pd is not positive definite')
    check(np.linalg.eigvalsh(B)[0] > -1e-9 * top, 'nearest_pd has eigenvalues %s', np.linalg.eigvalsh(B))
    if (w > 0).all():
        close(B, A, 1e-9 * top, 'nearest_pd of a positive definite matrix')
    else:
        v, V = np.linalg.eigh(A)
        proj = (V * np.clip(v, 0, None)) @ V.T
        check(np.linalg.norm(B - A) <= np.linalg.norm(proj - A) + 1e-6 * top, 'nearest_pd is at %.9g, the projection at %.9g',
              np.linalg.norm(B - A), np.linalg.norm(proj - A))
    # a matrix that is not symmetric: the closest one is that of its symmetric part
    if n == 1 or top < 1e-250:                # nothing to add, or too small to be told apart
        return None
    K = np.random.RandomState(c['seed'] ^ 1).normal(size=(n, n)) * top
    M = A + (K - K.T)
    B = np.array(nearest_pd(M.copy()), dtype=float)
    close(B, B.T, 1e-11 * top, 'nearest_pd of a matrix that is not symmetric is not symmetric')
    check(is_pd(B), 'nearest_pd of a matrix that is not symmetric is not positive definite')
    v, V = np.linalg.eigh(A)
    proj = (V * np.clip(v, 0, None)) @ V.T
    close(B, proj, 1e-5 * top * n, 'nearest_pd of a matrix that is not symmetric')
    return c['kind']
