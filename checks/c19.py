"""C19 the ordinal decision graph of pairwise models."""
import numpy as np
from hypothesis import strategies as st
from joblib import parallel_backend
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB

from pbt.core import sub
from pbt.gen import upto, ANY_LABELS, SEED, build_bag, build_train, check, close, labels, train_spec
from pbt.stubs import Scripted
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier


def graph(pair, k, method, rows):
    """Probabilities by dynamic programming over the nodes of the graph, one example at a time.
    pair(i, j) gives the probability of i against j."""
    out = np.zeros((rows, k))
    for r in range(rows):
        reach = {(0, k - 1): 1.0}
        for width in range(k - 1, 0, -1):
            for lo in range(k - width):
                w = reach.pop((lo, lo + width), 0.0)
                left, right = pair(lo, lo + width)[r]
                if method == 'winner_node' and width > 1:
                    left, right = (1.0, 0.0) if left >= 0.5 else (0.0, 1.0)
                for node, q in (((lo, lo + width - 1), left), ((lo + 1, lo + width), right)):
                    reach[node] = reach.get(node, 0.0) + w * q
        for i in range(k):
            out[r, i] = reach.get((i, i), 0.0)
    return out


@st.composite
def cases(draw):
    ts = draw(train_spec(2, 7, 1, 5))
    return dict(ts=ts, method=draw(st.sampled_from(['default', 'full_probabilistic', 'winner_node', 'winner_node'])),
                kind=draw(st.sampled_from(ANY_LABELS)), gain=draw(st.sampled_from([0.1, 1.0, 5.0])),
                grid=draw(st.sampled_from([0, 0, 1, 2, 10])), bag=draw(st.integers(1, upto(6))), seed=draw(SEED),
                model=draw(st.sampled_from(['scripted'] * 8 + ['lr', 'nb'])), twice=draw(st.booleans()),
                jobs=draw(st.sampled_from([None] * 10 + [1, 2])))


@sub('C19', 'graph', cases, quick=1500, big=93,
     rule='full and winner-path probabilities over reproducible arbitrary pairwise models (ties, halves, zeros) and real ones; '
          'oracle: own pairwise models and dynamic programming over the graph; one model per pair, trained on that pair '
          'only; non-trivial with three or more classes')
def graph_check(c):
    X, y = build_train(c['ts'], c['kind'])
    X = X / c['ts']['scale']
    k = c['ts']['k']
    C = labels(c['kind'], k)
    idx = np.array([list(C).index(v) for v in y])
    T, _ = build_bag(c['ts'], [c['bag']] * k, c['seed'])
    T = T / c['ts']['scale']
    scripted = c['model'] == 'scripted'

    def model():
        if scripted:
            return Scripted(gain=c['gain'], grid=c['grid'])
        return LogisticRegression() if c['model'] == 'lr' else GaussianNB(var_smoothing=1e-2)
    e = model()
    kw = {} if c['method'] == 'default' else dict(predict_method=c['method'])
    if c.get('jobs'):
        kw['n_jobs'] = c['jobs']
    d = DDAGClassifier(e, **kw)
    X0, y0 = X.copy(), y.copy()
    with parallel_backend('threading', n_jobs=1):
        if c['twice']:
            d.fit(X + 1, y[::-1])
        Scripted.LOG.clear()
        check(d.fit(X, y) is d, 'fit does not return the classifier')
    log = list(Scripted.LOG)
    check(np.array_equal(X, X0) and np.array_equal(y, y0), 'fit modified the data')
    check(not hasattr(e, 'classes_'), 'the estimator of the user was fitted')
    check(np.array_equal(d.classes_, C), 'classes_ are %s', d.classes_)
    own = {}
    for i in range(k):
        for j in range(i + 1, k):
            m = (idx == i) | (idx == j)
            own[i, j] = model().fit(X[m], (idx[m] == j).astype(int))
            if scripted:
                hits = [1 for a, b in log if np.array_equal(a, X[m]) and np.array_equal(b, idx[m] == j)]
                check(len(hits) >= 1, 'no model was trained with classes %s and %s alone', C[i], C[j])
    if scripted:
        check(len(log) == k * (k - 1) // 2, '%d models for %d classes', len(log), k)
    buf = T[::-1].copy()
    d.predict_proba(buf)
    buf[:] = T                # the same array object, with other content
    for what, D in (('an array predicted before', buf), ('other data', T), ('training data', X), ('one example', T[:1])):
        P = {p: m.predict_proba(D) for p, m in own.items()}
        if not np.isfinite(sum(v.sum() for v in P.values())):
            return None       # naive Bayes without any variance
        if not scripted and c['method'] == 'winner_node' and min(np.abs(v - 0.5).min() for v in P.values()) < 1e-6:
            return None
        want = graph(lambda i, j: P[i, j], k, 'winner_node' if c['method'] == 'winner_node' else 'full', len(D))
        got = np.asarray(d.predict_proba(D))
        msg = '%s of %s' % (c['method'], what)
        check(got.shape == (len(D), k), '%s: shape %s', msg, got.shape)
        check((got >= -1e-12).all(), '%s: negative %s', msg, got.min())
        close(got, want, 1e-9 if scripted else 1e-6, msg)
        close(got.sum(axis=1), np.ones(len(D)), 1e-9, msg + ', sums')
        crisp = np.asarray(d.predict(D))
        check(crisp.shape == (len(D),), '%s: shape of the classes %s', msg, crisp.shape)
        pos = np.array([list(C).index(v) for v in crisp])
        check((got[np.arange(len(D)), pos] >= got.max(axis=1) - 1e-12).all(), '%s: predict is not the most probable class', msg)
    return k > 2 and '%s %d' % (c['method'], k)
