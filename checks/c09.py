"""C09 row order and replication."""
import numpy as np
from hypothesis import strategies as st

from pbt import zoo
from pbt.core import sub
from pbt.gen import (ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, pred_spec,
                     train_spec)
from pbt.losses import objective


def inner(spec):
    return inner(spec[1]['base']) if 'base' in spec[1] else spec


def ask(q, spec, T):
    yb = zoo.uses_predictions(spec)
    try:
        p = zoo.predict(q, spec, None if yb else T, T if yb else None)
    except ValueError as e:
        if 'infinite minima' in str(e):
            return 'flat'
        raise
    return np.array(p, dtype=float)


def fitted(spec, A, y):
    yb = zoo.uses_predictions(spec)
    return zoo.fit(spec, None if yb else A, y, A if yb else None)


def same(spec, q, A, y, T, p, r, msg):
    """q has just answered p for T; r is the answer to the equivalent question."""
    if isinstance(p, str) or isinstance(r, str):
        if isinstance(p, str) and isinstance(r, str):
            return
        # a loss that is flat up to rounding may or may not be refused
        o = objective(spec, q, A, y, T)
        check(o is not None, '%s: %s and %s', msg, p, r)
        v = [o[0](np.array([1 - a, a])) for a in np.linspace(0, 1, 11)]
        check(max(v) - min(v) <= max(o[1], 1e-9), '%s: %s and %s', msg, p, r)
        return
    if np.abs(p - r).max() <= 1e-6:
        return
    o = objective(spec, q, A, y, T)
    if o is None:
        close(r, p, 1e-6, msg)
        return
    f, slack = o
    check(abs(f(p) - f(r)) <= slack, '%s: %s and %s, with losses %.9g and %.9g (slack %.2g)', msg, p, r, f(p), f(r), slack)


def ill_conditioned(spec, q):
    """Inverting a nearly singular matrix of averages amplifies the rounding of the averages."""
    b = inner(spec)[0]
    if b != 'PAC' or spec[0] in ('OVR', 'FH'):
        return False
    return np.linalg.cond(q.cm_) > 1e6


# searches and solvers with several solutions do not compose: an equivalent answer of one binary problem changes the rest
SAFE_BASES = ['CC', 'PCC', 'AC', 'PAC', 'EM', 'HDy', 'MMy', 'FriedmanME', 'DFy', 'DeBias', 'REGy']


@st.composite
def y_case(draw):
    ps = draw(pred_spec(2, 4, 2, 14))
    k = ps['k']
    q = draw(zoo.y_spec(k, glm=False))
    if 'base' in q[1]:
        q[1]['base'] = draw(zoo.y_spec(2, names=SAFE_BASES, nested=False))
    return dict(ps=ps, q=q, kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(k)), seed=draw(SEED),
                order=draw(SEED), times=draw(st.sampled_from([1, 2, 3, 7])), blocks=draw(st.booleans()))


def repeated(T, times, blocks):
    return np.tile(T, (times, 1)) if blocks else np.repeat(T, times, axis=0)


@sub('C09', 'test_bag_y', y_case, quick=800, big=50, thorough=12000,
     rule='quantifiers on predictions: the bag shuffled and repeated 1..7 times gives the same estimate; non-trivial when '
          'the rows really move or are repeated')
def test_bag_y(c):
    A, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    return compare_bag(c, A, y, T)


def compare_bag(c, A, y, T):
    # the pooled ranks of CvMy weigh the bag by its size
    T2 = T if inner(c['q'])[0] == 'CvMy' else repeated(T, c['times'], c['blocks'])
    T2 = T2[np.random.RandomState(c['order']).permutation(len(T2))]
    r = ask(fitted(c['q'], A, y), c['q'], T2)
    q = fitted(c['q'], A, y)
    if ill_conditioned(c['q'], q):
        return None
    p = ask(q, c['q'], T)
    same(c['q'], q, A, y, T, p, r, '%s, the bag shuffled and repeated %d times' % (zoo.label(c['q']), c['times']))
    return zoo.label(c['q']) if len(T2) != len(T) or not np.array_equal(T, T2) else None


@sub('C09', 'train_y', y_case, quick=800, big=50, thorough=12000,
     rule='quantifiers on predictions that do not draw bags: training rows shuffled together with their labels give the '
          'same estimate; non-trivial when the rows really move')
def train_y(c):
    if inner(c['q'])[0] == 'REGy':
        return None
    A, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    return compare_train(c, A, y, T)


def compare_train(c, A, y, T):
    if c['q'][1].get('bin_strategy', '') in ('normal', 'binormal') and (c.get('ps') or c.get('ts')).get('grid'):
        return None       # values exactly at a limit computed with a sum
    o = np.random.RandomState(c['order']).permutation(len(y))
    r = ask(fitted(c['q'], A[o], y[o]), c['q'], T)
    q = fitted(c['q'], A, y)
    if ill_conditioned(c['q'], q):
        return None
    p = ask(q, c['q'], T)
    same(c['q'], q, A, y, T, p, r, '%s, the training set shuffled' % zoo.label(c['q']))
    return zoo.label(c['q']) if not np.array_equal(A, A[o]) else None


@st.composite
def x_case(draw):
    ts = draw(train_spec(2, 4, 3, 12))
    k = ts['k']
    q = draw(zoo.x_spec(k))
    if q[0] in ('OVR', 'FH'):
        q[1]['base'] = draw(zoo.x_spec(2, names=['DFX', 'HDX', 'PWKQuantifier', 'REGX'], nested=False))
    elif q[0] == 'EoQ':
        q[1]['base'] = draw(zoo.x_spec(k, names=['DFX', 'HDX'], nested=False))
        # how similar two members are is decided up to rounding
    if inner(q)[0] == 'PWKQuantifier':
        ts['grid'] = 0
    return dict(ts=ts, q=q, kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(k)), seed=draw(SEED),
                order=draw(SEED), times=draw(st.sampled_from([1, 2, 3, 7])), blocks=draw(st.booleans()))


@sub('C09', 'test_bag_x', x_case, quick=500, big=31, thorough=8000,
     rule='as test_bag_y for the quantifiers on features')
def test_bag_x(c):
    A, y = build_train(c['ts'], c['kind'])
    T, _ = build_bag(c['ts'], c['bag'], c['seed'])
    return compare_bag(c, A, y, T)


@sub('C09', 'train_x', x_case, quick=500, big=31, thorough=8000,
     rule='as train_y for the quantifiers on features')
def train_x(c):
    if inner(c['q'])[0] == 'REGX' or c['q'][0] == 'EoQ':
        return None
    if 'base' in c['q'][1] and c['q'][1]['base'][1].get('bin_strategy') in ('normal', 'binormal') and c['ts']['grid']:
        return None
    A, y = build_train(c['ts'], c['kind'])
    T, _ = build_bag(c['ts'], c['bag'], c['seed'])
    return compare_train(c, A, y, T)
