"""C04 distribution matching: no other prevalence vector is better."""
import numpy as np
from hypothesis import strategies as st

from pbt import oracles as O, zoo
from pbt.core import sub
from pbt.gen import (also, ANY_LABELS, OFFSETS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels,
                     pred_spec, train_spec, valid_prevalences)
from quantificationlib.metrics import multiclass as MM

DYADIC = (1, 2, 4, 8, 16)


def loss_of(name):
    """Distances, computed here."""
    if name == 'l1':
        return lambda a, b: np.abs(a - b).sum()
    if name == 'l2':
        return lambda a, b: np.sqrt(((a - b) ** 2).sum())
    if name == 'hd':
        return lambda a, b: np.sqrt(((np.sqrt(a) - np.sqrt(b)) ** 2).sum())
    e = 1e-20
    return lambda a, b: (a * np.log((2 * a + e) / (a + b + e)) + b * np.log((2 * b + e) / (a + b + e))).sum()


def judge(p, M, t, distance, msg):
    k = M.shape[1]
    valid_prevalences(np.asarray(p), k, msg, 1e-5)
    if distance in ('HD', 'L1', 'L2'):
        O.optimal(p, M, t, distance, msg)
        return
    f = loss_of(distance)
    grid = np.linspace(0, 1, 1001)
    vals = [f(M[:, 0] * (1 - a) + M[:, 1] * a, t) for a in grid]
    near = min(f(M[:, 0] * (1 - a) + M[:, 1] * a, t) for a in np.clip(np.r_[p[1] + np.linspace(-3e-5, 3e-5, 61), np.round(p[1], 3)], 0, 1)
               if abs(a - p[1]) < 3.1e-5)
    check(near <= min(vals) + 1e-9, '%s: loss %.12g at %.6f, but %.12g at %.6f', msg, near, p[1], min(vals),
          grid[int(np.argmin(vals))])


def cumulate(H, blocks, per_block):
    """PDF blocks -> CDF."""
    if per_block:
        n = H.shape[0] // blocks
        return np.vstack([np.cumsum(H[b * n:(b + 1) * n], axis=0) for b in range(blocks)])
    return np.cumsum(H, axis=0)


class Skip(Exception):
    pass


def trust(x, e, exact):
    """Values at (almost) the limit of a bin belong to a bin that only exact arithmetic decides."""
    if exact or not len(e):
        return
    if O.near_edge(x, e):
        raise Skip()


def df_model(cols_train, y, L, params, rng, dyadic_data):
    """Per-class histograms of the columns, and a function that gives the histogram of a bag."""
    n_bins, strat = params['n_bins'], params['bin_strategy']
    E, blocks = [], []
    for col in cols_train:
        if not strat.startswith('equal') and not O.spread(col, y, strat):
            raise Skip()
        e = O.edges(col, y, n_bins, strat, rng)
        exact = strat == 'equal_count' or (strat == 'equal_width' and dyadic_data and n_bins in DYADIC)
        trust(col, e, exact)
        E.append((e, exact))
        blocks.append(np.column_stack([O.hist(col[y == c], e) for c in L]))
    M = np.vstack(blocks)

    def bag(cols):
        out = []
        for col, (e, exact) in zip(cols, E):
            trust(col, e, exact)
            out.append(O.hist(col, e))
        return np.concatenate(out)
    return M, bag


def resolve(spec):
    """(family, distribution_function, distance, params) of a histogram method."""
    n, p = spec
    full = dict(distribution_function='PDF', n_bins=8, bin_strategy='equal_width', distance='HD')
    if n == 'MMy':
        full.update(distribution_function='CDF', distance='L1')
    full.update(p)
    return full


def finish(q, spec, M, bags, ask, params, blocks, per_block):
    cdf = params['distribution_function'] == 'CDF'
    A = cumulate(M, blocks, per_block) if cdf else M
    d = params['distance']
    if d in zoo.DISTANCES and np.ptp(A, axis=1).max() < 1e-12:
        return None       # both classes look the same: the search refuses
    for i, (data, t) in enumerate(bags):
        t = cumulate(t[:, None], blocks, per_block)[:, 0] if cdf else t
        try:
            p = ask(data)
        except ValueError as e:
            if d in zoo.DISTANCES and 'infinite minima' in str(e):
                return None
            raise
        judge(p, A, t, d, '%s bag %d' % (zoo.label(spec), i))
    return '%s %s %s' % (spec[0], d, params['distribution_function'])


@st.composite
def y_cases(draw):
    ps = draw(pred_spec(2, 5, 2, 20))
    k = ps['k']
    return dict(ps=ps, q=draw(zoo.y_spec(k, names=['DFy', 'HDy', 'MMy'], nested=False)),
                kind=draw(st.sampled_from(ANY_LABELS)),
                bags=draw(st.lists(st.tuples(bag_counts(k, 0, 15), SEED), min_size=1, max_size=3)))


@sub('C04', 'dfy', y_cases, quick=1000, big=62,
     rule='DFy/HDy/MMy x bins x distances x predictions x sequences of bags (warm starts), against own histograms and '
          'own optimum; cases with values at the floating-point limit of a bin are not decided')
def dfy(c):
    P, y = build_preds(c['ps'], c['kind'])
    k = c['ps']['k']
    L = labels(c['kind'], k)
    params = resolve(c['q'])
    n_desc = 1 if k == 2 else k
    dyadic = c['ps']['grid'] in (1, 4)
    bags = [bag_preds(c['ps'], cnt, s)[0] for cnt, s in c['bags']]
    try:
        M, hist = df_model([P[:, j] for j in range(n_desc)], y, L, params, (0, 1), dyadic)
        data = [(B, hist([B[:, j] for j in range(n_desc)])) for B in bags]
    except Skip:
        return None
    q = zoo.fit(c['q'], None, y, P)
    return finish(q, c['q'], M, data, lambda B: zoo.predict(q, c['q'], None, B), params, n_desc, False)


@st.composite
def x_cases(draw):
    ts = draw(train_spec(2, 4, 2, 14, d_max=3))
    ts['offset'] = draw(st.sampled_from(OFFSETS))
    k = ts['k']
    return dict(ts=ts, q=draw(zoo.x_spec(k, names=['DFX', 'HDX'], nested=False)), kind=draw(st.sampled_from(ANY_LABELS)),
                bags=draw(st.lists(st.tuples(bag_counts(k, 0, 15), SEED), min_size=1, max_size=3)))


@sub('C04', 'dfx', x_cases, quick=800, big=50, rule='DFX/HDX, as dfy')
def dfx(c):
    X, y = build_train(c['ts'], c['kind'])
    k = c['ts']['k']
    L = labels(c['kind'], k)
    params = resolve(c['q'])
    dyadic = c['ts']['grid'] in (0.5, 1.0) and c['ts']['scale'] in (1.0, 100.0)
    bags = [build_bag(c['ts'], cnt, s)[0] for cnt, s in c['bags']]
    try:
        M, hist = df_model(list(X.T), y, L, params, None, dyadic)
        data = [(B, hist(list(B.T))) for B in bags]
    except Skip:
        return None
    q = zoo.fit(c['q'], X, y, None)
    return finish(q, c['q'], M, data, lambda B: zoo.predict(q, c['q'], B, None), params, X.shape[1], True)


@st.composite
def friedman_cases(draw):
    ps = draw(pred_spec(2, 5, 2, 20))
    k = ps['k']
    return dict(ps=ps, q=draw(zoo.y_spec(k, names=['FriedmanME'], nested=False)), kind=draw(st.sampled_from(ANY_LABELS)),
                bags=draw(st.lists(st.tuples(bag_counts(k, 0, 15), SEED), min_size=1, max_size=3)))


@sub('C04', 'friedman', friedman_cases, quick=600, big=37,
     rule='FriedmanME: share of the examples of each class (or of the bag) whose probability of class j reaches the '
          'training prevalence of j; optimum computed independently')
def friedman(c):
    P, y = build_preds(c['ps'], c['kind'])
    k = c['ps']['k']
    L = labels(c['kind'], k)
    prev = np.array([np.sum(y == v) for v in L]) / len(y)

    def rep(Q):
        d = Q - prev
        if ((np.abs(d) < 1e-12) & (d != 0)).any():
            raise Skip()
        return (Q >= prev).mean(axis=0)
    bags = [bag_preds(c['ps'], cnt, s)[0] for cnt, s in c['bags']]
    try:
        M = np.column_stack([rep(P[y == v]) for v in L])
        data = [(B, rep(B)) for B in bags]
    except Skip:
        return None
    q = zoo.fit(c['q'], None, y, P)
    params = dict(distribution_function='thresholds', distance=c['q'][1]['distance'])
    return finish(q, c['q'], M, data, lambda B: zoo.predict(q, c['q'], None, B), params, 1, False)


def winner(P):
    """Rows as those of a decision graph: only two consecutive classes have probability."""
    Q = np.zeros_like(P)
    for i, r in enumerate(P):
        j = int(np.argmax(r[:-1] + r[1:]))
        s = r[j] + r[j + 1]
        Q[i, j] = r[j] / s
        Q[i, j + 1] = 1 - Q[i, j]
    return Q


@st.composite
def ordinal_cases(draw):
    ps = draw(pred_spec(3, 5, 2, 20))
    k = ps['k']
    name = draw(st.sampled_from(['PDFOrdinaly', 'PDFOrdinaly', 'ACOrdinal']))
    p = {}
    if name == 'PDFOrdinaly':
        p = dict(n_bins=draw(also([1, 2, 4, 5, 8], [20, 32])), distance=draw(st.sampled_from(['HD', 'L2', 'EMD'])),
                 method=draw(st.sampled_from(['full_probabilistic', 'winner_node'])))
    return dict(ps=ps, q=[name, p], kind=draw(st.sampled_from(ANY_LABELS)),
                bags=draw(st.lists(st.tuples(bag_counts(k, 0, 15), SEED), min_size=1, max_size=3)))


@sub('C04', 'ordinal', ordinal_cases, quick=700, big=43,
     rule='PDFOrdinaly (histogram of the expected position in the class order; HD, L2, earth mover) and ACOrdinal '
          '(earth mover distance between predicted-class counts)')
def ordinal(c):
    P, y = build_preds(c['ps'], c['kind'])
    k = c['ps']['k']
    L = labels(c['kind'], k)
    name, p = c['q']
    bags = [bag_preds(c['ps'], cnt, s)[0] for cnt, s in c['bags']]
    if name == 'ACOrdinal':
        def rep(Q):
            n = np.zeros(k)
            for r in Q:
                n[int(np.argmax(r))] += 1
            return np.cumsum(n / len(Q))
        d, fn = 'L1', 'EMD'
    else:
        if p['method'] == 'winner_node':
            P, bags = winner(P), [winner(B) for B in bags]
        n = p['n_bins'] * (k - 1)
        e = np.array([1 + i / p['n_bins'] for i in range(1, n)])
        d = 'L1' if p['distance'] == 'EMD' else p['distance']
        fn = p['method']

        def rep(Q):
            s = np.array([sum((j + 1) * float(v) for j, v in enumerate(r)) for r in Q])
            if not (p['n_bins'] in DYADIC and c['ps']['grid'] == 1):
                trust(s, e, False)
            if s.min() < 1 or s.max() > k:
                raise Skip()
            h = O.hist(s, e)
            return np.cumsum(h)[:-1] if p['distance'] == 'EMD' else h
    try:
        M = np.column_stack([rep(P[y == v]) for v in L])
        data = [(B, rep(B)) for B in bags]
    except Skip:
        return None
    q = zoo.fit(c['q'], None, y, P)
    for i, (B, t) in enumerate(data):
        r = zoo.predict(q, c['q'], None, B)
        valid_prevalences(np.asarray(r), k, zoo.label(c['q']), 1e-5)
        O.optimal(r, M, t, d, '%s bag %d' % (zoo.label(c['q']), i))
    return '%s %s' % (zoo.label(c['q']), fn)


@st.composite
def recover_cases(draw):
    ps = draw(pred_spec(2, 5, 2, 12))
    k = ps['k']
    names = ['DFy', 'HDy', 'MMy', 'FriedmanME'] + (['PDFOrdinaly', 'ACOrdinal'] if k > 2 else [])
    return dict(ps=ps, q=draw(zoo.y_spec(k, names=names, nested=False)), kind=draw(st.sampled_from(ANY_LABELS)),
                reps=draw(st.lists(st.integers(0, 4), min_size=k, max_size=k)))


@sub('C04', 'recover', recover_cases, quick=500, big=31,
     rule='test bag = training predictions of class c repeated r_c times: the mixture proportions are an optimum, and '
          'the answer equals them when the representations (read from the fitted quantifier) are independent '
          '(smallest singular value at least 0.2)')
def recover(c):
    P, y = build_preds(c['ps'], c['kind'])
    k = c['ps']['k']
    L = labels(c['kind'], k)
    reps = c['reps'] if sum(c['reps']) else [1] * k
    q = zoo.fit(c['q'], None, y, P)
    M = q.train_distrib_
    s = np.linalg.svd(M, compute_uv=False)
    if s[-1] < 0.2:
        return None
    T = np.vstack([np.repeat(P[y == L[i]], reps[i], axis=0) for i in range(k)])
    w = np.array([reps[i] * np.sum(y == L[i]) for i in range(k)], dtype=float)
    d = c['q'][1].get('distance', '')
    if (d in ('HD', 'hd') and (c['q'][1].get('distribution_function') == 'CDF' or c['q'][0] == 'FriedmanME')):
        return None        # not a distance between distributions
    p = zoo.predict(q, c['q'], None, T)
    tol = 0.06 / s[-1] if d in ('HD',) or c['q'][0] == 'HDy' else 2e-3 / s[-1]
    close(p, w / w.sum(), tol, '%s does not recover the mixture' % zoo.label(c['q']))
    return zoo.label(c['q'])
