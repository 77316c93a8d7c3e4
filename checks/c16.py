"""C16 every example is counted in exactly one bin."""
import numpy as np
from hypothesis import strategies as st

from pbt import oracles as O, zoo
from pbt.core import sub
from pbt.gen import (also, upto, more, ANY_LABELS, OFFSETS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels,
                     pred_spec, train_spec)
from quantificationlib.multiclass.df import compute_bincuts

STRATEGIES = ['equal_width', 'equal_count', 'binormal', 'normal']


@st.composite
def cut_case(draw):
    k = draw(st.integers(2, more(4, 4)))
    return dict(k=k, cnt=draw(st.lists(st.integers(1, upto(8)), min_size=k, max_size=k)), seed=draw(SEED),
                shape=draw(st.sampled_from(['normal', 'uniform', 'grid', 'two', 'constant', 'heavy', 'tiny', 'big'])),
                bins=draw(also([1, 2, 3, 4, 5, 7, 8, 10, 16, 20], [40, 100, 130])), strategy=draw(st.sampled_from(STRATEGIES)),
                rng=draw(st.sampled_from([None, [0.0, 1.0], [-3.0, 5.0]])), kind=draw(st.sampled_from(ANY_LABELS)),
                lst=draw(st.booleans()))


def values(c, r, y_idx):
    n = len(y_idx)
    x = r.normal(size=n) + y_idx
    s = c['shape']
    if s == 'uniform':
        x = r.uniform(size=n)
    elif s == 'grid':
        x = np.round(x * 2) / 2
    elif s == 'two':
        x = r.randint(0, 2, n).astype(float)
    elif s == 'constant':
        x = np.full(n, float(r.randint(-3, 4)))
    elif s == 'heavy':
        x = np.sign(x) * np.exp(3 * np.abs(x))
    elif s == 'tiny':
        x = x * 1e-9
    elif s == 'big':
        x = 1e6 + x
    return x


@sub('C16', 'limits', cut_case, quick=1500, big=93, thorough=20000,
     rule='limits of the bins of a sample (ties, constants, outliers, tiny and huge values) for each strategy: from minus to '
          'plus infinity, non-decreasing, and equal to the documented ones; non-trivial with at least one inner limit')
def limits(c):
    r = np.random.RandomState(c['seed'])
    L = labels(c['kind'], c['k'])
    i = np.repeat(np.arange(c['k']), c['cnt'])
    x = values(c, r, i)
    o = r.permutation(len(x))
    x, y = x[o], L[i[o]]
    keep = x.copy()
    if c['strategy'] == 'binormal' and c['k'] != 2:
        return None
    got = np.array(compute_bincuts(x, y, L, n_bins=c['bins'], bin_strategy=c['strategy'], att_range=c['rng']), dtype=float)
    check(np.array_equal(keep, x), 'compute_bincuts modified the values')
    msg = '%s limits of %d bins' % (c['strategy'], c['bins'])
    check(got.shape == (c['bins'] + 1,), '%s: shape %s', msg, got.shape)
    check(got[0] == -np.inf and got[-1] == np.inf, '%s: they do not cover the line: %s', msg, got)
    check(not np.isnan(got).any() and (np.diff(got[1:-1]) >= 0).all(), '%s: not in order: %s', msg, got)
    counts = np.histogram(x, bins=got)[0]
    check(counts.sum() == len(x), '%s: %d of %d examples are counted', msg, counts.sum(), len(x))
    scale = max(1e-300, np.abs(x).max())
    if c['strategy'] == 'equal_count':
        s = np.sort(x)
        for b in range(1, c['bins']):
            cut = min(max(int(round(len(x) * b / c['bins'])), 1), len(x) - 1)
            close([got[b]], [(s[cut - 1] + s[cut]) / 2], 1e-12 * scale, msg)
        if len(np.unique(x)) == len(x) and len(x) >= c['bins']:
            check(np.ptp(counts) <= 2, '%s: the bins have %s examples', msg, counts)
        return c['strategy'] if c['bins'] > 1 else None
    if c['strategy'] in ('normal', 'binormal') and not O.spread(x, y, c['strategy']):
        return None       # no width to speak of: the limits are only required to be in order and to count everything
    e = O.edges(x, y, c['bins'], c['strategy'], c['rng'])
    close(got[1:-1], e, 1e-9 * max(scale, np.abs(e).max() if len(e) else 0), msg)
    return c['strategy'] if c['bins'] > 1 else None


def expected(cols, E):
    return np.concatenate([O.hist(col, e) for col, e in zip(cols, E)])


def inner_limits(q, n):
    b = np.array(q.bincuts_, dtype=float)
    check(b.ndim == 2 and b.shape[0] == n, 'limits for %d features: shape %s', n, b.shape)
    check((b[:, 0] == -np.inf).all() and (b[:, -1] == np.inf).all(), 'limits do not cover the line: %s', b)
    return [row[1:-1] for row in b]


def per_block(h, n, what, last):
    """Each block of the representation adds up to one (or ends in one)."""
    for j, blk in enumerate(np.split(np.asarray(h), n)):
        check((blk >= -1e-9).all(), '%s: negative densities %s', what, blk)
        v = blk[-1] if last else blk.sum(axis=0)
        check(np.allclose(v, 1, atol=1e-9), '%s: block %d adds up to %s', what, j, v)


@st.composite
def y_case(draw):
    ps = draw(pred_spec(2, 5, 1, 14))
    k = ps['k']
    return dict(ps=ps, q=draw(zoo.y_spec(k, names=['DFy', 'HDy', 'MMy'], nested=False)), kind=draw(st.sampled_from(ANY_LABELS)),
                bag=draw(bag_counts(k, 0, 12)), seed=draw(SEED), one=draw(st.booleans()))


@sub('C16', 'predictions', y_case, quick=900, big=56, thorough=12000,
     rule='densities that DFy, HDy and MMy keep of the classes and of the bag against a count example by example with the '
          'limits they keep; bags of one example too; non-trivial with 3 or more bins')
def predictions(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    if c['one']:
        T = T[:1]
    k = c['ps']['k']
    cols = 1 if k == 2 else k
    return judge(c, P[:, :cols], y, T[:, :cols], lambda q: q.fit(None, y, predictions_train=P),
                 lambda q: q.predict(None, predictions_test=T), [0, 1], False)


def judge(c, A, y, T, fit, ask, rng, cdf_by_block):
    q = zoo.build(c['q'])
    fit(q)
    n = A.shape[1]
    E = inner_limits(q, n)
    strat = c['q'][1]['bin_strategy']
    for j in range(n):
        e = O.edges(A[:, j], y, c['q'][1]['n_bins'], strat, rng)
        if strat.startswith('equal') or O.spread(A[:, j], y, strat):
            close(E[j], e, 1e-9 * max(1, np.abs(e).max() if len(e) else 1), '%s limits of feature %d' % (strat, j))
    try:
        ask(q)
    except ValueError as err:
        if 'infinite minima' not in str(err):
            raise
    cdf = c['q'][0] == 'MMy' or c['q'][1].get('distribution_function') == 'CDF'
    M = np.column_stack([expected(A[y == v].T, E) for v in np.unique(y)])
    t = expected(T.T, E)[:, None]
    got, got_t = np.array(q.train_distrib_), np.array(q.test_distrib_).reshape(-1, 1)
    for what, h, w in (('classes', got, M), ('bag', got_t, t)):
        if cdf:
            w = np.vstack([np.cumsum(b, axis=0) for b in np.split(w, n)])
            if not cdf_by_block:
                # the curves of the descriptors are chained one after another
                h = np.vstack([b - j for j, b in enumerate(np.split(h, n))])
        per_block(h if not cdf or cdf_by_block else h + 0, n, what, cdf)
        close(h, w, 1e-9, '%s: density of the %s' % (zoo.label(c['q']), what))
    return '%s %s' % (zoo.label(c['q']), strat) if c['q'][1]['n_bins'] > 2 else None


@st.composite
def x_case(draw):
    ts = draw(train_spec(2, 5, 1, 14))
    ts['offset'] = draw(st.sampled_from(OFFSETS))
    k = ts['k']
    return dict(ts=ts, q=draw(zoo.x_spec(k, names=['DFX', 'HDX'], nested=False)), kind=draw(st.sampled_from(ANY_LABELS)),
                bag=draw(bag_counts(k, 0, 12)), seed=draw(SEED), one=draw(st.booleans()), far=draw(st.booleans()))


@sub('C16', 'features', x_case, quick=900, big=56, thorough=12000,
     rule='as predictions for DFX and HDX, with bags that leave the range of the training set')
def features(c):
    X, y = build_train(c['ts'], c['kind'])
    T, _ = build_bag(c['ts'], c['bag'], c['seed'])
    if c['one']:
        T = T[:1]
    if c['far']:
        T = T * 10
    return judge(c, X, y, T, lambda q: q.fit(X, y), lambda q: q.predict(T), None, True)


@st.composite
def pdf_case(draw):
    ps = draw(pred_spec(3, 5, 1, 12))
    k = ps['k']
    ps['grid'] = 0
    return dict(ps=ps, bins=draw(also([1, 2, 3, 5, 8], [20, 32])), distance=draw(st.sampled_from(['HD', 'L2', 'EMD'])),
                kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(k, 0, 12)), seed=draw(SEED), one=draw(st.booleans()))


from quantificationlib.ordinal.pdf import PDFOrdinaly  # noqa: E402


@sub('C16', 'ordinal', pdf_case, quick=500, big=31, thorough=8000,
     rule='densities of the scores that PDFOrdinaly keeps, against a count with equal bins between the first and the last class')
def ordinal(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    if c['one']:
        T = T[:1]
    k, nb = c['ps']['k'], c['bins'] * (c['ps']['k'] - 1)
    q = PDFOrdinaly(n_bins=c['bins'], distance=c['distance'])
    q.fit(None, y, predictions_train=P)
    q.predict(None, predictions_test=T)
    e = np.array([1 + (k - 1) * i / nb for i in range(1, nb)])
    s, t = P @ np.arange(1, k + 1), T @ np.arange(1, k + 1)
    if O.near_edge(np.r_[s, t], e):
        return None
    M = np.column_stack([O.hist(s[y == v], e) for v in np.unique(y)])
    w = O.hist(t, e)
    if c['distance'] == 'EMD':
        M, w = np.cumsum(M, axis=0), np.cumsum(w)
    close(np.array(q.train_distrib_), M, 1e-9, 'densities of the classes')
    close(np.ravel(q.test_distrib_), w, 1e-9, 'density of the bag')
    return c['distance'] if nb > 2 else None
