"""Shared generators. Every strategy yields plain JSON-able values; `build_*` turn them into arrays."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Violation

SEED = st.integers(0, 2 ** 32 - 1)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, tol, msg):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape, '%s: shapes %s and %s' % (msg, a.shape, b.shape))
    bad = ~(np.abs(a - b) <= tol)
    if bad.any():
        raise Violation('%s: %s != %s (tolerance %g)' % (msg, np.array2string(a.ravel()[:12], precision=10),
                                                         np.array2string(b.ravel()[:12], precision=10), tol))


def raises(exc, fn, msg):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Violation('%s: %s instead of %s (%s)' % (msg, type(e).__name__, exc, e))
    raise Violation('%s: accepted' % msg)


# ---------------------------------------------------------------- size of the data
_times = 1


def upto(n):
    """Upper limit of a size: n, or a multiple of it inside `larger`. Read when the strategy is built, so inside composites."""
    return n * _times


def more(n, extra):
    """n, or n + extra inside `larger`."""
    return n + (extra if _times > 1 else 0)


def also(values, extra):
    """One of the values, or of the extra ones too inside `larger`."""
    return st.sampled_from(list(values) + (list(extra) if _times > 1 else []))


@st.composite
def larger(draw, strategy, times):
    global _times
    _times = draw(st.sampled_from(list(times)))
    try:
        return draw(strategy if hasattr(strategy, 'example') else strategy())
    finally:
        _times = 1


# ---------------------------------------------------------------- prevalences
def simplex(n):
    """Prevalence vectors of length n: fractions, with zeros and vertices; also extreme tiny entries."""
    ints = st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 5, 8, 13, 50]), min_size=n, max_size=n)
    big = st.lists(st.integers(0, 10 ** 9), min_size=n, max_size=n)
    vertex = st.integers(0, n - 1).map(lambda k: [1 if i == k else 0 for i in range(n)])
    return st.one_of(ints, ints, big, vertex).map(lambda v: v if sum(v) else [1] * len(v))


def norm(v):
    v = np.array(v, dtype=float)
    return v / v.sum()


# ---------------------------------------------------------------- labels
LABELS = {
    'range': lambda k: list(range(k)),
    'one': lambda k: list(range(1, k + 1)),
    'gaps': lambda k: [3 * i * i + i - 4 for i in range(k)],
    'neg': lambda k: [i - k for i in range(k)],
    'pm': lambda k: [2 * i - k + 1 if k != 2 else (-1, 1)[i] for i in range(k)],
    'big': lambda k: [1000 - 7 * (k - i) for i in range(k)],
    'float': lambda k: [i + 0.5 for i in range(k)],
    'whole': lambda k: [2.0 * i - 1 for i in range(k)],
    'str': lambda k: ['c%02d' % (i * 3) for i in range(k)],
}
INT_LABELS = ['range', 'one', 'gaps', 'neg', 'pm', 'big']
ANY_LABELS = INT_LABELS + ['whole', 'str']


def labels(kind, k):
    return np.array(LABELS[kind](k))


# ---------------------------------------------------------------- data
def counts(k, lo=1, hi=12):
    return st.lists(st.integers(lo, upto(hi)), min_size=k, max_size=k)


@st.composite
def train_spec(draw, k_min=2, k_max=4, n_lo=3, n_hi=14, d_max=3):
    """A training set: class counts, dimension, separation, rounding (ties), seed."""
    k = draw(st.integers(k_min, more(k_max, 4) if k_max > k_min else k_max))
    return dict(k=k, counts=draw(counts(k, n_lo, n_hi)), d=draw(st.integers(1, more(d_max, 5))),
                sep=draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 5.0])), grid=draw(st.sampled_from([0, 0, 0.5, 1.0])),
                scale=draw(st.sampled_from([1.0, 1.0, 1.0, 0.01, 100.0])), seed=draw(SEED))


OFFSETS = [0, 0, 0, 0, 2.0 ** 20, -2.0 ** 20]     # away from the origin, where single precision would not do


def shifted(X, spec):
    if not spec.get('offset'):
        return X
    return np.round(X * 256) / 256 + spec['offset']


def build_train(spec, kind='range', shuffle=True):
    """Returns X, y (class indices are drawn first; labels only rename them)."""
    r = np.random.RandomState(spec['seed'])
    k, d = spec['k'], spec['d']
    idx = np.repeat(np.arange(k), spec['counts'])
    centers = np.arange(k)[:, None] * spec['sep'] + r.normal(size=(k, d)) * 0.3 * spec['sep']
    X = centers[idx] + r.normal(size=(len(idx), d))
    if spec.get('grid'):
        X = np.round(X / spec['grid']) * spec['grid']
    X = shifted(X * spec.get('scale', 1.0), spec)
    if shuffle:
        o = r.permutation(len(idx))
        X, idx = X[o], idx[o]
    return X, labels(kind, k)[idx]


def build_bag(spec, cnt, seed):
    """A test bag from the same classes with `cnt` examples of each."""
    s = dict(spec, counts=cnt)
    r = np.random.RandomState(spec['seed'])
    k, d = spec['k'], spec['d']
    centers = np.arange(k)[:, None] * spec['sep'] + r.normal(size=(k, d)) * 0.3 * spec['sep']
    r = np.random.RandomState(seed)
    idx = np.repeat(np.arange(k), cnt)
    X = centers[idx] + r.normal(size=(len(idx), d))
    if spec.get('grid'):
        X = np.round(X / spec['grid']) * spec['grid']
    o = r.permutation(len(idx))
    return shifted(X[o] * spec.get('scale', 1.0), spec), idx[o]


def bag_counts(k, lo=0, hi=10):
    return st.lists(st.integers(lo, upto(hi)), min_size=k, max_size=k).map(lambda c: c if sum(c) else [1] + c[1:])


@st.composite
def pred_spec(draw, k_min=2, k_max=4, n_lo=2, n_hi=14):
    """Class-conditional probability predictions for a training set and parameters shared with its bags."""
    k = draw(st.integers(k_min, more(k_max, 4) if k_max > k_min else k_max))
    return dict(k=k, counts=draw(counts(k, n_lo, n_hi)), conc=draw(st.sampled_from([0.0, 0.5, 1.0, 3.0, 20.0])),
                grid=draw(st.sampled_from([0, 0, 0, 10, 4, 1])), order=draw(st.booleans()), seed=draw(SEED))


def probs_for(idx, spec, r):
    """Probability rows for examples of classes idx; `conc` = how much mass the true class gets; ties through grid;
    grid=1 gives one-hot rows."""
    k = spec['k']
    alpha = np.ones((len(idx), k)) * 0.7
    alpha[np.arange(len(idx)), idx] += spec['conc']
    P = np.array([r.dirichlet(a) for a in alpha]).reshape(-1, k)
    g = spec.get('grid') or 0
    if g == 1:
        Q = np.zeros_like(P)
        Q[np.arange(len(P)), P.argmax(axis=1)] = 1
        return Q
    if g:
        Q = np.floor(P * g)
        rest = (g - Q.sum(axis=1)).astype(int)
        for i, m in enumerate(rest):
            for j in np.argsort(-P[i] * g + Q[i], kind='stable')[:m]:
                Q[i, j] += 1
        return Q / g
    return P


def build_preds(spec, kind='range'):
    """Training predictions: (P, y)."""
    r = np.random.RandomState(spec['seed'])
    idx = np.repeat(np.arange(spec['k']), spec['counts'])
    P = probs_for(idx, spec, r)
    if not spec.get('order'):
        o = r.permutation(len(idx))
        P, idx = P[o], idx[o]
    return P, labels(kind, spec['k'])[idx]


def bag_preds(spec, cnt, seed):
    r = np.random.RandomState(seed)
    idx = np.repeat(np.arange(spec['k']), cnt)
    idx = idx[r.permutation(len(idx))]
    return probs_for(idx, spec, r), idx


def valid_prevalences(p, k, msg, tol=1e-6):
    check(isinstance(p, np.ndarray), '%s: not an array (%s)', msg, type(p).__name__)
    check(p.shape == (k,), '%s: shape %s for %d classes', msg, p.shape, k)
    check(np.isfinite(p).all(), '%s: not finite %s', msg, p)
    check((p >= -tol).all() and (p <= 1 + tol).all(), '%s: outside [0, 1]: %s', msg, p)
    check(abs(p.sum() - 1) <= tol, '%s: sums to %.12g: %s', msg, p.sum(), p)
