"""C01 every quantifier returns a valid vector of prevalences."""
import numpy as np
from hypothesis import strategies as st

from pbt import zoo
from pbt.core import sub
from pbt.gen import (ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, pred_spec,
                     train_spec, valid_prevalences)


def uninformative(q):
    """A distance search may refuse (ValueError) when both classes have the same training distribution."""
    return True


@st.composite
def y_cases(draw):
    ps = draw(pred_spec(2, 5, 1, 14))
    k = ps['k']
    return dict(q=draw(zoo.y_spec(k)), ps=ps, kind=draw(st.sampled_from(ANY_LABELS)),
                where=draw(st.sampled_from(['same', 'same', 'vertex', 'vertices', 'centre', 'any'])),
                bags=draw(st.lists(st.tuples(bag_counts(k), SEED), min_size=1, max_size=4)))


def strange(T, how, r):
    """Predictions unlike those of the training examples."""
    k = T.shape[1]
    if how == 'vertex':
        return np.tile(np.eye(k)[r.randint(k)], (len(T), 1))
    if how == 'vertices':
        return np.eye(k)[r.randint(k, size=len(T))]
    if how == 'centre':
        return np.full(T.shape, 1 / k)
    if how == 'any':
        return r.dirichlet(np.full(k, r.choice([0.05, 0.5, 50])) + 1e-3, size=len(T))
    return T


def run(c, q, ask, k, allow):
    for i, b in enumerate(c['bags']):
        try:
            p = ask(b)
        except ValueError as e:
            if allow and 'infinite minima' in str(e):
                return None
            raise
        valid_prevalences(np.asarray(p) if not isinstance(p, np.ndarray) else p, k, 'bag %d' % i, 1e-5)
    return zoo.label(c['q'])


def search_based(spec):
    n, p = spec
    if n in ('OVR', 'FH', 'EoQ'):
        return search_based(p['base'])
    return n == 'QUANTy' or p.get('distance') in zoo.DISTANCES


@sub('C01', 'predictions', y_cases, quick=1200, big=75,
     rule='quantifier x class-conditional predictions (ties, one-hot and uninformative rows included) x bags, also unlike them; '
          'non-trivial when every bag was answered')
def predictions(c):
    P, y = build_preds(c['ps'], c['kind'])
    q = zoo.fit(c['q'], None, y, P)
    return run(c, q, lambda b: zoo.predict(q, c['q'], None, strange(bag_preds(c['ps'], b[0], b[1])[0], c['where'],
                                                                    np.random.RandomState(b[1]))),
               c['ps']['k'], search_based(c['q'])) and '%s %s' % (c['where'], zoo.label(c['q']))


def elsewhere(B, X, how, r):
    """The bag moved to where there are few training examples, or none at all."""
    if how == 'same':
        return B
    B = B.copy()
    for j in range(X.shape[1]):
        v = np.unique(X[:, j])
        span = max(v[-1] - v[0], 1e-3)
        if how == 'out':
            B[:, j] = r.choice([v[0] - span, v[-1] + span, v[-1] + 1000 * span], size=len(B))
        elif how == 'gap' and len(v) > 1:
            i = np.argmax(np.diff(v))
            B[:, j] = v[i] + (v[i + 1] - v[i]) * r.choice([0.4, 0.5, 0.6], size=len(B))
        else:
            B[:, j] = r.uniform(v[0] - span, v[-1] + span, size=len(B))
    return B


@st.composite
def x_cases(draw):
    ts = draw(train_spec(2, 4, 6, 14))
    k = ts['k']
    return dict(q=draw(zoo.x_spec(k)), ts=ts, kind=draw(st.sampled_from(ANY_LABELS)),
                where=draw(st.sampled_from(['same', 'gap', 'out', 'any'])),
                bags=draw(st.lists(st.tuples(bag_counts(k), SEED), min_size=1, max_size=3)))


@sub('C01', 'features', x_cases, quick=900, big=25,
     rule='quantifier without classifier x data (rounded features, several scales) x bags, also far from the training examples or in the gaps '
          'between them; non-trivial when every bag '
          'was answered')
def features(c):
    X, y = build_train(c['ts'], c['kind'])
    q = zoo.fit(c['q'], X, y, None)
    return run(c, q, lambda b: zoo.predict(q, c['q'], elsewhere(build_bag(c['ts'], b[0], b[1])[0], X, c['where'],
                                                                np.random.RandomState(b[1])), None),
               c['ts']['k'], search_based(c['q'])) and '%s %s' % (c['where'], zoo.label(c['q']))
