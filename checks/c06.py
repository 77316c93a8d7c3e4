"""C06 one-dimensional search and the methods that use it."""
import numpy as np
from hypothesis import strategies as st

from pbt import zoo
from pbt.core import sub
from pbt.gen import (also, ANY_LABELS, SEED, bag_counts, bag_preds, build_preds, check, close, labels, pred_spec, raises,
                     valid_prevalences)
from quantificationlib.binary.emd import SORDy
from quantificationlib.binary.quantiles import QUANTy
from quantificationlib.metrics import multiclass as MM
from quantificationlib.search import (compute_quantiles, compute_sord_weights, global_search, golden_section_search,
                                      mixture_of_pdfs, sord)


# ------------------------------------------------------------------ the search itself, on losses known in advance
@st.composite
def wells(draw):
    n = draw(st.integers(1, 4))
    slots = draw(st.permutations(list(range(11))))[:n]      # centres at least 0.06 apart
    out = []
    for s in slots:
        c = min(1.0, max(0.0, s / 10 + draw(st.sampled_from([0.0, 0.0, 0.013, -0.017, 0.005]))))
        out.append([c, draw(st.sampled_from([0.0, 0.1, 0.25, 0.3])), draw(st.sampled_from([1.0, 3.0, 10.0, 30.0]))])
    power, cap = draw(st.sampled_from([1, 2])), draw(st.sampled_from([None, 0.35, 0.5]))
    if cap is not None:
        # a well has to be wider than two steps of the first scan
        out = [[m, d, min(s, (cap - d) / 0.021 ** power)] for m, d, s in out]
    return dict(wells=out, power=power, cap=cap,
                tol=draw(st.sampled_from([1e-5, 1e-4, 1e-3])), reuse=draw(st.booleans()))


def loss_fn(c):
    def f(p):
        v = min(d + s * abs(p - m) ** c['power'] for m, d, s in c['wells'])
        return v if c['cap'] is None else min(v, c['cap'])
    return f


@sub('C06', 'search_wells', wells, quick=1500,
     rule='losses with 1..4 wells (smooth or V-shaped, minima at 0 and 1 included, flat stretches between them) given to '
          'global_search; the answer must be within the tolerance of a point as good as the best of 2001 points and of '
          'the centres; non-trivial with several wells, a flat stretch or a minimum at an end')
def search_wells(c):
    f = loss_fn(c)
    # a scan in steps of 0.01 has to be able to see a best well: it must be the lowest one in two steps around its centre
    low = min(f(w[0]) for w in c['wells'])
    if not any(f(m) <= low + 1e-12 and all(f(x) >= d + s * abs(x - m) ** c['power'] - 1e-12
                                           for x in np.clip(np.linspace(m - 0.021, m + 0.021, 43), 0, 1))
               for m, d, s in c['wells']):
        return None
    grid = np.r_[np.linspace(0, 1, 2001), [w[0] for w in c['wells']]]
    vals = np.array([f(p) for p in grid])
    calls = []

    def dist(m, t):
        calls.append(1)
        return f(float(np.ravel(m)[0])) + 0.0 * float(t[0])

    def mix(prevalence=None, extra=None):
        check(extra == 'x', 'the search lost the arguments of the mixture function')
        return np.array([prevalence, 0.0])
    t = np.zeros(1)
    if np.ptp([f(i / 100) for i in range(101)]) == 0:
        raises(ValueError, lambda: global_search(dist, mix, t, c['tol'], None, True, extra='x'), 'a constant loss')
        return None
    m, p = global_search(dist, mix, t, c['tol'], None, True, extra='x')
    if c['reuse']:
        m2, p2 = global_search(dist, mix, t, c['tol'], m, True, extra='x')
        close(p2, p, 0, 'search with the mixtures of the previous call')
        _, p3 = global_search(dist, mix, t, c['tol'], None, False, extra='x')
        close(p3, p, 0, 'search without returning the mixtures')
    p = np.asarray(p).ravel()
    valid_prevalences(p, 2, 'global_search', 1e-9)
    steep = max(w[2] for w in c['wells'])
    slack = steep * 2 * c['tol'] if c['power'] == 1 else steep * (2 * c['tol']) ** 2
    if f(p[1]) > vals.min() + slack + 1e-12:
        check(False, 'global_search: loss %.9g at %.6f, but %.9g at %.6f', f(p[1]), p[1], vals.min(), grid[vals.argmin()])
    best = [w for w in c['wells'] if f(w[0]) <= vals.min() + 1e-12]
    if len(c['wells']) > 1:
        return '%d wells' % len(c['wells'])
    return 'end' if best[0][0] in (0.0, 1.0) else ('flat' if c['cap'] else None)


@st.composite
def golden_cases(draw):
    a = draw(st.floats(0, 0.98))
    b = draw(st.floats(0.01, 1.0))
    a, b = min(a, b), max(a, b)
    if b - a < 0.005:
        b = a + 0.005
    return dict(a=a, b=b, m=draw(st.floats(0, 1)), left=draw(st.sampled_from([0.5, 1.0, 7.0])),
                right=draw(st.sampled_from([0.5, 1.0, 7.0])), power=draw(st.sampled_from([1, 2])),
                tol=draw(st.sampled_from([1e-5, 1e-3, 1e-4])))


@sub('C06', 'golden', golden_cases, quick=600,
     rule='losses with one minimum, asymmetric, inside or outside [a, b]: the answer is within the tolerance of the '
          'minimiser in [a, b] and the reported loss is that of a point at most a tolerance away')
def golden(c):
    def f(p):
        return (c['left'] * (c['m'] - p) if p < c['m'] else c['right'] * (p - c['m'])) ** c['power']
    loss, p = golden_section_search(lambda m, t: f(float(m)), lambda prevalence=None: prevalence, np.zeros(1), c['tol'],
                                    c['a'], c['b'])
    p = np.asarray(p).ravel()
    check(abs(p.sum() - 1) < 1e-12, 'sum %s', p)
    target = min(max(c['m'], c['a']), c['b'])
    check(c['a'] - 1e-12 <= p[1] <= c['b'] + 1e-12, '%.9f outside [%s, %s]', p[1], c['a'], c['b'])
    check(abs(p[1] - target) <= c['tol'] + 1e-9, 'minimum at %.9f, found %.9f, tolerance %g', target, p[1], c['tol'])
    near = [f(min(max(p[1] + d, 0), 1)) for d in np.linspace(-c['tol'], c['tol'], 21)]
    if abs(p[1] - c['m']) <= c['tol'] * 1.01:
        near.append(0.0)
    check(min(near) - 1e-12 <= float(loss) <= max(near) + 1e-12, 'reported loss %.9g, losses around [%.9g, %.9g]',
          float(loss), min(near), max(near))
    return 'inside' if c['a'] < c['m'] < c['b'] else 'at an end'


# ------------------------------------------------------------------ mixtures
def quantile_slices(x, w, q):
    """Average of the quantile function of the weighted sample on each of the q slices of [0, 1]."""
    o = np.argsort(x, kind='stable')
    x, w = np.asarray(x)[o], np.asarray(w, dtype=float)[o]
    F = np.r_[0, np.cumsum(w) / w.sum()]
    out = np.zeros(q)
    for j in range(q):
        lo, hi = j / q, (j + 1) / q
        for i in range(len(x)):
            out[j] += x[i] * max(0.0, min(hi, F[i + 1]) - max(lo, F[i]))
    return out * q


@st.composite
def binary_preds(draw):
    ps = draw(pred_spec(2, 2, 1, 20))
    return dict(ps=ps, kind=draw(st.sampled_from(ANY_LABELS)), q=draw(also([1, 2, 3, 4, 8, 20], [50, 100])),
                a=draw(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1))), seed=draw(SEED),
                cnt=draw(bag_counts(2, 0, 12)))


@sub('C06', 'quantiles', binary_preds, quick=800, big=50,
     rule='quantiles of a bag and of the weighted mixture of the two classes against the average of the quantile '
          'function on each slice (the library may drop 1e-4 examples per slice)')
def quantiles(c):
    P, y = build_preds(c['ps'], c['kind'])
    L = labels(c['kind'], 2)
    o = np.argsort(P[:, 1], kind='stable')
    x, y = P[o, 1], y[o]
    n = len(x)
    w = np.where(y == L[0], (1 - c['a']) / np.sum(y == L[0]), c['a'] / np.sum(y == L[1]))
    got = compute_quantiles(prevalence=c['a'], probabilities=x, n_quantiles=c['q'], y=y, classes=L)
    close(np.asarray(got), quantile_slices(x, w, c['q']), 2e-4 * c['q'] / n * max(1, 1) + 1e-9, 'quantiles of the mixture')
    t = np.sort(bag_preds(c['ps'], c['cnt'], c['seed'])[0][:, 1])
    got = compute_quantiles(prevalence=None, probabilities=t, n_quantiles=c['q'])
    close(np.asarray(got), quantile_slices(t, np.ones(len(t)), c['q']), 2e-4 * c['q'] / len(t) + 1e-9, 'quantiles of the bag')
    return 'q=%d' % c['q'] if n > 2 else None


def window(p, f, lo=3e-5):
    z = np.r_[p[1] + np.linspace(-lo, lo, 61), np.round(p[1], 3), np.round(p[1] * 400) / 400]
    return min(f(a) for a in np.clip(z[np.abs(z - p[1]) < lo * 1.05], 0, 1))


@st.composite
def quanty_cases(draw):
    ps = draw(pred_spec(2, 2, 2, 20))
    return dict(ps=ps, kind=draw(st.sampled_from(ANY_LABELS)), q=draw(also([1, 2, 4, 8, 20], [50, 100])),
                distance=draw(st.sampled_from(['l1', 'l2', 'max', 'default'])),
                bags=draw(st.lists(st.tuples(bag_counts(2, 0, 12), SEED), min_size=1, max_size=2)))


@sub('C06', 'quanty', quanty_cases, quick=250, big=16,
     rule='QUANTy x number of quantiles x distances x bags: no prevalence of the grid of 101 gives closer quantiles (own '
          'quantiles; slack for the mass the library drops)')
def quanty(c):
    P, y = build_preds(c['ps'], c['kind'])
    L = labels(c['kind'], 2)
    fns = {'l1': MM.l1, 'l2': MM.l2, 'max': lambda a, b: np.max(np.abs(a - b))}
    own = {'l1': lambda d: np.abs(d).sum(), 'l2': lambda d: np.sqrt((d * d).sum()), 'max': lambda d: np.abs(d).max()}
    dname = 'l2' if c['distance'] == 'default' else c['distance']
    kw = {} if c['distance'] == 'default' else dict(distance=fns[dname])
    q = QUANTy(n_quantiles=c['q'], **kw).fit(None, y, predictions_train=P)
    x = P[:, 1]
    n1, n0 = np.sum(y == L[1]), np.sum(y == L[0])
    for i, (cnt, s) in enumerate(c['bags']):
        T, _ = bag_preds(c['ps'], cnt, s)
        t = quantile_slices(T[:, 1], np.ones(len(T)), c['q'])
        memo = {}

        def f(a):
            a = float(a)
            if a not in memo:
                memo[a] = own[dname](quantile_slices(x, np.where(y == L[1], a / n1, (1 - a) / n0), c['q']) - t)
            return memo[a]
        try:
            p = np.asarray(q.predict(None, predictions_test=T))
        except ValueError as e:
            check('infinite minima' in str(e), 'QUANTy: %s', e)
            check(max(f(a) for a in np.linspace(0, 1, 21)) - min(f(a) for a in np.linspace(0, 1, 21)) < 1e-3,
                  'QUANTy refuses a loss that is not flat')
            return None
        valid_prevalences(p, 2, 'QUANTy', 1e-6)
        best = min(f(a) for a in np.linspace(0, 1, 101))
        slack = 4e-4 * c['q'] ** 1.5 / min(len(x), len(T)) + 1e-9
        got = window(p, f)
        check(got <= best + slack, 'QUANTy bag %d: loss %.9g at %.6f, but a grid point has %.9g (slack %.2g)', i, got, p[1],
              best, slack)
    return c['distance']


def sord_cost(x, pos, t):
    """Area between the cumulative distributions of the training set, its positives weighted by a, and of the bag."""
    pts = np.unique(np.r_[x, t])
    f1, f0, ft = [np.array([np.mean(v <= a) for a in pts[:-1]]) for v in (x[pos], x[~pos], t)]
    return lambda a: float(np.sum(np.diff(pts) * np.abs(a * f1 + (1 - a) * f0 - ft)))


@sub('C06', 'sordy', binary_preds, quick=800, big=50, times=(4, 12, 25),
     rule='SORD cost against the area between the cumulative distributions, and SORDy against a grid of 401 prevalences')
def sordy(c):
    P, y = build_preds(c['ps'], c['kind'])
    L = labels(c['kind'], 2)
    T, _ = bag_preds(c['ps'], c['cnt'], c['seed'])
    x, t = P[:, 1], T[:, 1]
    f = sord_cost(x, y == L[1], t)
    u = np.r_[x, t]
    o = np.argsort(u, kind='stable')
    lab = np.r_[np.where(y == L[1], 1, 0), np.full(len(t), 2)][o]
    w = compute_sord_weights(prevalence=c['a'], union_labels=lab, classes=np.array([0, 1]))
    close(np.ravel(sord(w, u[o])), [f(c['a'])], 1e-9, 'sord')
    p = np.asarray(SORDy().fit(None, y, predictions_train=P).predict(None, predictions_test=T))
    valid_prevalences(p, 2, 'SORDy', 1e-6)
    best = min(f(a) for a in np.linspace(0, 1, 401))
    check(window(p, f) <= best + 1e-9, 'SORDy: cost %.9g at %.6f, but a grid point has %.9g', f(p[1]), p[1], best)
    return 'flat' if max(f(a) for a in (0, .5, 1)) - best < 1e-9 else 'cost'


@st.composite
def hist_cases(draw):
    ps = draw(pred_spec(2, 2, 2, 20))
    q = draw(st.sampled_from(['DFy', 'DFy', 'FriedmanME']))
    spec = [q, dict(distance=draw(st.sampled_from(sorted(zoo.DISTANCES))))]
    if q == 'DFy':
        spec[1].update(n_bins=draw(zoo.BINS), distribution_function=draw(st.sampled_from(['PDF', 'CDF'])))
    return dict(ps=ps, q=spec, kind=draw(st.sampled_from(ANY_LABELS)),
                bags=draw(st.lists(st.tuples(bag_counts(2, 0, 12), SEED), min_size=1, max_size=3)))


@sub('C06', 'histogram_search', hist_cases, quick=300, big=18,
     rule='DFy and FriedmanME with a distance function, on the representations the fitted object exposes '
          '(train_distrib_, test_distrib_): no prevalence of a grid of 401 is better')
def histogram_search(c):
    P, y = build_preds(c['ps'], c['kind'])
    q = zoo.fit(c['q'], None, y, P)
    d = zoo.DISTANCES[c['q'][1]['distance']]
    for i, (cnt, s) in enumerate(c['bags']):
        T, _ = bag_preds(c['ps'], cnt, s)
        try:
            p = np.asarray(q.predict(None, predictions_test=T))
        except ValueError as e:
            check('infinite minima' in str(e), '%s', e)
            return None
        M, t = q.train_distrib_, np.ravel(q.test_distrib_)

        def f(a):
            return d(M[:, 1] * a + M[:, 0] * (1 - a), t)
        best = min(f(a) for a in np.linspace(0, 1, 401))
        check(window(p, f) <= best + 1e-9, '%s bag %d: loss %.9g at %.6f, but a grid point has %.9g', zoo.label(c['q']), i,
              f(p[1]), p[1], best)
    a = float(P[0, 1])
    close(mixture_of_pdfs(prevalence=a, pos_distrib=M[:, 1], neg_distrib=M[:, 0]), M[:, 1] * a + M[:, 0] * (1 - a), 1e-12,
          'mixture')
    return zoo.label(c['q'])
