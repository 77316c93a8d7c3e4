"""C14 error measures."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import sub
from pbt.gen import upto, more, check, close, norm, simplex
from quantificationlib.metrics import binary as B
from quantificationlib.metrics import multiclass as M


@st.composite
def pairs(draw, m=2):
    n = draw(st.integers(2, more(8, 40)))
    vs = [draw(simplex(n)) for _ in range(m)]
    if draw(st.integers(0, 9)) == 0:
        vs[1] = list(vs[0])
    return dict(p=vs[0], q=vs[1], r=vs[2] if m > 2 else None, perm=draw(st.permutations(list(range(n)))),
                shape=draw(st.sampled_from(['1d', '1d', 'col', 'list'])),
                eps=draw(st.sampled_from([None, 1e-12, 1e-8, 1e-20, 1e-3])))


def xlogy(x, y, log=math.log):
    return 0.0 if x == 0 else x * log(y)


def ref(name, p, q, eps):
    n = len(p)
    z = list(zip(p, q))
    s = math.fsum
    if name == 'kld':
        e = 1e-12 if eps is None else eps
        return s(xlogy(a, a / (b + e) if a else 1, math.log2) for a, b in z)
    if name == 'mean_absolute_error':
        return s(abs(a - b) for a, b in z) / n
    if name == 'l1':
        return s(abs(a - b) for a, b in z)
    if name == 'mean_squared_error':
        return s((a - b) ** 2 for a, b in z) / n
    if name == 'l2':
        return math.sqrt(s((a - b) ** 2 for a, b in z))
    if name == 'hd':
        return math.sqrt(s((math.sqrt(a) - math.sqrt(b)) ** 2 for a, b in z))
    if name == 'bray_curtis':
        return s(abs(a - b) for a, b in z) / s(a + b for a, b in z)
    e = 1e-20 if eps is None else eps
    if name == 'topsoe':
        return s(xlogy(a, (2 * a + e) / (a + b + e)) + xlogy(b, (2 * b + e) / (a + b + e)) for a, b in z)
    if name == 'jensenshannon':
        return 0.5 * s(xlogy(a, a + e) + xlogy(b, b + e) - xlogy(a + b, (a + b + e) / 2) for a, b in z)
    if name == 'probsymmetric':
        return 2 * s((a - b) ** 2 / (a + b + e) for a, b in z)
    raise KeyError(name)


EPS_ARG = {'kld': 'eps', 'topsoe': 'epsilon', 'jensenshannon': 'epsilon', 'probsymmetric': 'epsilon'}
ALL = ['kld', 'mean_absolute_error', 'l1', 'mean_squared_error', 'l2', 'hd', 'bray_curtis', 'topsoe', 'jensenshannon',
       'probsymmetric']
SYMMETRIC = [m for m in ALL if m != 'kld']
UPPER = {'l1': 2.0, 'l2': math.sqrt(2), 'hd': math.sqrt(2), 'bray_curtis': 1.0, 'topsoe': 2 * math.log(2),
         'jensenshannon': math.log(2), 'probsymmetric': 4.0}
METRIC = {'l1': lambda x: x, 'l2': lambda x: x, 'hd': lambda x: x, 'mean_absolute_error': lambda x: x,
          'bray_curtis': lambda x: x, 'topsoe': lambda x: math.sqrt(max(x, 0)),
          'jensenshannon': lambda x: math.sqrt(max(x, 0)), 'probsymmetric': lambda x: math.sqrt(max(x, 0)),
          'mean_squared_error': lambda x: math.sqrt(max(x, 0))}


def shaped(v, shape):
    v = norm(v)
    return v.reshape(-1, 1) if shape == 'col' else v.tolist() if shape == 'list' else v


@sub('C14', 'formulas', pairs, quick=900, big=24,
     rule='two prevalence vectors of 2-8 classes with zeros/vertices; non-trivial when they differ')
def formulas(c):
    p, q = norm(c['p']), norm(c['q'])
    a, b = shaped(c['p'], c['shape']), shaped(c['q'], c['shape'])
    for name in ALL:
        f = getattr(M, name)
        kw = {EPS_ARG[name]: c['eps']} if name in EPS_ARG and c['eps'] is not None else {}
        big = kw and c['eps'] >= 1e-3
        a0, b0 = np.array(a, copy=True), np.array(b, copy=True)
        v = f(a, b, **kw)
        check(np.ndim(v) == 0, '%s is not a number: %r', name, v)
        check(np.isfinite(v), '%s(%s, %s) = %s', name, p, q, v)
        w = ref(name, p.tolist(), q.tolist(), c['eps'])
        close(v, w, 1e-9 * max(1, abs(w)), name)
        check(np.array_equal(a0, np.array(a)) and np.array_equal(b0, np.array(b)), '%s changed its arguments', name)
        low = -2 * len(p) * (c['eps'] or 1e-12) if name in EPS_ARG else 0
        check(v >= low - 1e-12, '%s is negative: %s', name, v)
        if name in SYMMETRIC:
            close(f(b, a, **kw), v, 1e-12, name + ' symmetry')
        if name in UPPER and not big:
            check(v <= UPPER[name] + 1e-6, '%s above its maximum: %s', name, v)
        close(f(p[c['perm']], q[c['perm']], **kw), v, 1e-9 * max(1, abs(v)), name + ' class permutation')
        z = f(a, a, **kw)
        check(abs(z) <= 1e-12 + (0 if name not in EPS_ARG else 4 * len(p) * (c['eps'] or 1e-12)),
              '%s of equal vectors is %s', name, z)
        if np.abs(p - q).max() > 1e-3 and not big:
            check(v > 1e-9, '%s does not tell %s from %s', name, p, q)
    close(M.topsoe(a, b), 2 * M.jensenshannon(a, b), 1e-9, 'topsoe = 2 jensenshannon')
    return np.abs(p - q).max() > 0 and '%d classes%s' % (len(p), ' with zeros' if (p == 0).any() or (q == 0).any() else '')


@st.composite
def vectors(draw):
    n = draw(st.integers(1, more(8, 40)))
    v = st.one_of(st.sampled_from([0.0, 0.0, 1.0, 1.0, 0.5]), st.integers(0, 200).map(lambda i: i / 8), st.floats(1e-9, 1e3))
    p, q = (draw(st.lists(v, min_size=n, max_size=n)) for _ in range(2))
    if draw(st.integers(0, 2)) == 0:
        p, q = np.cumsum(p).tolist(), np.cumsum(q).tolist()
    return dict(p=p, q=q, perm=draw(st.permutations(list(range(n)))), eps=draw(st.sampled_from([None, 1e-12, 1e-8])))


@sub('C14', 'vectors', vectors, quick=500, big=24,
     rule='the multiclass measures as distances of histograms, cumulative sums and quantiles: vectors of non-negative numbers that do '
          'not sum one, against the formulas; non-trivial when the sums differ')
def of_vectors(c):
    p, q = np.array(c['p']), np.array(c['q'])
    if p.sum() + q.sum() == 0:
        return None
    scale = max(1.0, p.sum() + q.sum(), np.sum(p * np.abs(np.log(p + 1e-20))) + np.sum(q * np.abs(np.log(q + 1e-20))))
    for name in ALL:
        f = getattr(M, name)
        kw = {EPS_ARG[name]: c['eps']} if name in EPS_ARG and c['eps'] is not None else {}
        w = ref(name, p.tolist(), q.tolist(), c['eps'])
        v = f(p, q, **kw)
        tol = 1e-9 * (scale + np.sum(p) * 30 if name == 'kld' else max(scale, abs(w)))
        close(v, w, tol, name + ' of vectors')
        close(f(p[c['perm']], q[c['perm']], **kw), v, tol, name + ' of permuted vectors')
        if name in SYMMETRIC:
            close(f(q, p, **kw), v, tol, name + ' of vectors, symmetry')
    return abs(p.sum() - q.sum()) > 1e-3 and 'sums differ'


@sub('C14', 'triangle', lambda: pairs(3), quick=500, big=24,
     rule='three prevalence vectors; non-trivial when all differ')
def triangle(c):
    p, q, r = norm(c['p']), norm(c['q']), norm(c['r'])
    for name, g in METRIC.items():
        f = getattr(M, name)
        d = [g(float(f(x, y))) for x, y in ((p, r), (p, q), (q, r))]
        check(d[0] <= d[1] + d[2] + 1e-7, '%s breaks the triangle inequality: %s', name, d)
    return len({tuple(p), tuple(q), tuple(r)}) == 3 and 'distinct'


@st.composite
def binary_cases(draw):
    fr = st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.integers(0, 1000).map(lambda i: i / 1000),
                   st.floats(1e-15, 1, allow_nan=False), st.sampled_from([1e-9, 1 - 1e-9, 1e-5]))
    return dict(p=draw(fr), q=draw(fr), eps=draw(st.sampled_from([None, 1e-12, 1e-6, 1e-3])))


@sub('C14', 'binary', binary_cases, quick=1500,
     rule='true and predicted prevalence in [0, 1] incl. both ends; non-trivial when they differ')
def binary(c):
    p, q = c['p'], c['q']
    e = c['eps'] or 1e-12
    kw = {} if c['eps'] is None else {'eps': c['eps']}
    close(B.bias(p, q), q - p, 1e-15, 'bias')
    close(B.absolute_error(p, q), abs(q - p), 1e-15, 'absolute error')
    close(B.squared_error(p, q), (q - p) ** 2, 1e-15, 'squared error')
    w = abs(q - p) / (p if p != 0 else e)
    close(B.relative_absolute_error(p, q, **kw), w, 1e-9 * max(1, w), 'relative absolute error')
    w = abs(q - p) / (p + q) if p + q else 0.0
    close(B.symmetric_absolute_percentage_error(p, q), w, 1e-12, 'SAPE')
    close(B.symmetric_absolute_percentage_error(q, p), w, 1e-12, 'SAPE symmetric')
    check(0 <= w <= 1 + 1e-12, 'SAPE range')
    m = max(p, 1 - p)
    for f, w, nm in ((B.normalized_absolute_score, 1 - abs(q - p) / m, 'NAS'),
                     (B.normalized_squared_score, 1 - ((q - p) / m) ** 2, 'NSS')):
        v = f(p, q)
        close(v, w, 1e-12, nm)
        check(-1e-12 <= v <= 1 + 1e-12, '%s outside [0, 1]: %s', nm, v)
        close(f(p, p), 1, 1e-15, nm + ' of a perfect prediction')
        close(f(1 - p, 1 - q), v, 1e-9, nm + ' under exchange of the classes')
    w = xlogy(p, p / (q if q != 0 else e) if p else 1, math.log2) + \
        xlogy(1 - p, (1 - p) / (1 - q if q != 1 else e) if p < 1 else 1, math.log2)
    v = B.binary_kld(p, q, **kw)
    check(np.isfinite(v), 'binary KLD of %r, %r is %s', p, q, v)
    close(v, w, 1e-9 * max(1, abs(w)), 'binary KLD')
    if 1e-6 < q < 1 - 1e-6:
        close(v, M.kld([1 - p, p], [1 - q, q]), 1e-5, 'binary and multiclass KLD')
        check(v >= -1e-9, 'binary KLD negative: %s', v)
    close(B.binary_kld(p, p), 0, 1e-9, 'binary KLD of a perfect prediction')
    return p != q and ('interior' if 0 < p < 1 and 0 < q < 1 else 'boundary')


@st.composite
def class_cases(draw):
    n = draw(st.integers(1, upto(20)))
    k = draw(st.integers(1, more(5, 8)))
    lab = st.integers(0, k - 1)
    return dict(t=draw(st.lists(lab, min_size=n, max_size=n)), p=draw(st.lists(lab, min_size=n, max_size=n)),
                same=draw(st.booleans()), corr=draw(st.sampled_from([0.0, 0.0, 0.01, 0.5])),
                kind=draw(st.sampled_from(['range', 'gaps', 'str', 'neg'])))


@sub('C14', 'classifier_scores', class_cases, quick=500, big=31,
     rule='true and predicted class sequences of 1-20 examples; non-trivial with two or more classes')
def classifier_scores(c):
    from pbt.gen import labels
    L = labels(c['kind'], 13)
    t = np.array(c['t'])
    p = np.where(np.arange(len(t)) % 3 > 0, t, c['p']) if c['same'] else np.array(c['p'])
    seen = sorted(set(t.tolist()) | set(p.tolist()))
    rec = []
    for k in seen:
        n = int((t == k).sum())
        v = int(((t == k) & (p == k)).sum()) / n if n else 0.0
        rec.append(v if v > 0 else c['corr'])
    w = math.exp(math.fsum(math.log(v) for v in rec) / len(rec)) if all(rec) else 0.0
    v = M.geometric_mean(L[t], L[p], correction=c['corr'])
    close(v, w, 1e-9, 'geometric mean of the sensitivities')
    # Brier score of probability rows
    r = np.random.RandomState(sum(c['t']) * 31 + len(t))
    P = r.dirichlet(np.ones(3), size=len(t))
    T = np.eye(3)[t % 3]
    w = math.fsum((P[i, j] - T[i, j]) ** 2 for i in range(len(t)) for j in range(3)) / len(t)
    close(M.brier_multi(T, P), w, 1e-9, 'Brier score')
    return len(seen) > 1 and ('zero' if w == 0 else 'positive')
