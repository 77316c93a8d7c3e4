"""C15 ordinal error measures."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog

from pbt.core import sub
from pbt.gen import more, check, close, norm, simplex
from quantificationlib.metrics import ordinal as O


@st.composite
def pairs(draw, m=2):
    n = draw(st.integers(2, more(8, 12)))
    vs = [draw(simplex(n)) for _ in range(m)]
    if draw(st.integers(0, 9)) == 0:
        vs[1] = list(vs[0])
    return dict(p=vs[0], q=vs[1], r=vs[2] if m > 2 else None, shape=draw(st.sampled_from(['1d', 'col', 'list'])))


def exact_emd(p, q):
    """Work of the greedy optimal transport on a line, in exact arithmetic (unit spaced classes)."""
    p = [Fraction(x) / sum(map(Fraction, p)) for x in p]
    q = [Fraction(x) / sum(map(Fraction, q)) for x in q]
    work, carry = Fraction(0), Fraction(0)
    for a, b in zip(p, q):
        carry += a - b
        work += abs(carry)
    return work


def shaped(v, shape):
    v = norm(v)
    return v.reshape(-1, 1) if shape == 'col' else v.tolist() if shape == 'list' else v


@sub('C15', 'transport', pairs, quick=250, big=24,
     rule='two prevalence vectors of 2-8 classes; oracle: optimal transport solved as a linear program; non-trivial '
          'when they differ')
def transport(c):
    p, q = norm(c['p']), norm(c['q'])
    n = len(p)
    cost = np.abs(np.arange(n)[:, None] - np.arange(n)[None, :]).ravel()
    A = np.zeros((2 * n, n * n))
    for i in range(n):
        A[i, i * n:(i + 1) * n] = 1
        A[n + i, i::n] = 1
    r = linprog(cost, A_eq=A[:-1], b_eq=np.concatenate([p, q])[:-1], bounds=(0, None), method='highs')
    v = O.emd(shaped(c['p'], c['shape']), shaped(c['q'], c['shape']))
    if r.status == 0:
        close(v, r.fun, 1e-6 if n <= 8 else 1e-4, 'EMD against optimal transport')
    close(v, float(exact_emd(c['p'], c['q'])), 1e-9, 'EMD against the exact greedy transport')
    return np.abs(p - q).max() > 0 and '%d classes' % n


@sub('C15', 'laws', lambda: pairs(3), quick=700, big=24,
     rule='three prevalence vectors; symmetry, identity, triangle, reversal, bounds; non-trivial when distinct')
def laws(c):
    p, q, r = norm(c['p']), norm(c['q']), norm(c['r'])
    n = len(p)
    p0, q0 = p.copy(), q.copy()
    v = O.emd(p, q)
    check(np.isfinite(v) and np.ndim(v) == 0, 'EMD is not a number')
    close(O.emd(q, p), v, 1e-12, 'EMD symmetry')
    close(O.emd(p[::-1], q[::-1]), v, 1e-9, 'EMD under reversal of the class order')
    close(O.emd(p, p), 0, 1e-12, 'EMD of equal vectors')
    check(-1e-12 <= v <= n - 1 + 1e-9, 'EMD outside [0, classes - 1]: %s', v)
    check(O.emd(p, r) <= v + O.emd(q, r) + 1e-9, 'EMD triangle inequality')
    e = np.eye(n)
    for i in range(n):
        for j in range(n):
            close(O.emd(e[i], e[j]), abs(i - j), 1e-12, 'EMD between two classes')
    s = O.emd_score(p, q)
    worst = max(float(exact_emd(c['p'], [1] + [0] * (n - 1))), float(exact_emd(c['p'], [0] * (n - 1) + [1])))
    close(s, 1 - float(exact_emd(c['p'], c['q'])) / worst, 1e-9, 'EMD score')
    close(O.emd_score(p, p), 1, 1e-12, 'EMD score of a perfect prediction')
    w = [O.emd_score(p, e[i]) for i in range(n)]
    check(min(w) >= -1e-9 and abs(min(w)) < 1e-9, 'the worst prediction does not score 0: %s', w)
    check(-1e-9 <= s <= 1 + 1e-9, 'EMD score outside [0, 1]: %s', s)
    close(O.emd_score(p.reshape(-1, 1), q.reshape(-1, 1)), s, 1e-12, 'EMD score of column vectors')
    check(np.array_equal(p, p0) and np.array_equal(q, q0), 'the arguments were changed')
    return len({tuple(p), tuple(q), tuple(r)}) == 3 and 'distinct'


@st.composite
def tables(draw):
    n = draw(st.integers(2, more(6, 20)))
    return dict(A=draw(st.lists(simplex(n), min_size=1, max_size=6)), B=draw(st.lists(simplex(n), min_size=1, max_size=6)))


@sub('C15', 'pairwise', tables, quick=400, big=25,
     rule='two tables of prevalence vectors; non-trivial with more than one row on both sides')
def pairwise(c):
    A, B = np.array([norm(v) for v in c['A']]), np.array([norm(v) for v in c['B']])
    A0, B0 = A.copy(), B.copy()
    D = O.emd_distances(A, B)
    check(D.shape == (len(A), len(B)), 'shape of the pairwise distances: %s', D.shape)
    for i in range(len(A)):
        for j in range(len(B)):
            close(D[i, j], float(exact_emd(c['A'][i], c['B'][j])), 1e-9, 'pairwise EMD %d,%d' % (i, j))
    close(O.emd_distances(B, A), D.T, 1e-12, 'transposed pairwise EMD')
    check(np.array_equal(A, A0) and np.array_equal(B, B0), 'the arguments were changed')
    return len(A) > 1 and len(B) > 1 and '%d classes' % A.shape[1]
