"""C10 class names carry no information."""
import numpy as np
from hypothesis import strategies as st

from checks.c09 import SAFE_BASES, ask, ill_conditioned, inner
from pbt import zoo
from pbt.core import sub
from pbt.gen import (SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels, pred_spec,
                     train_spec)
from pbt.losses import objective

# name -> labels in increasing order
NAMES = {
    'range': lambda k: np.arange(k), 'one': lambda k: np.arange(1, k + 1), 'gaps': lambda k: labels('gaps', k),
    'neg': lambda k: labels('neg', k), 'pm': lambda k: labels('pm', k), 'big': lambda k: labels('big', k),
    'str': lambda k: labels('str', k),
    'len': lambda k: np.array(['a', 'bb', 'c', 'dddd', 'ee', 'f', 'ggg', 'h'][:k]),
    'case': lambda k: np.array(['Neg', 'Pos', 'neg', 'pos', 'z', 'za', 'zb', 'zc'][:k]),
    'obj': lambda k: np.array(['ant', 'bee', 'cat', 'dogs', 'e', 'ee', 'f', 'g'][:k], dtype=object),
    'uint8': lambda k: np.sort(np.array([3, 100, 200, 255, 1, 2, 50, 60][:k], dtype=np.uint8)),
    'int8': lambda k: np.sort(np.array([-128, -1, 5, 127, -9, 8, 9, 90][:k], dtype=np.int8)),
    'int32': lambda k: np.sort(np.array([-2 ** 31, 0, 7, 2 ** 31 - 1, -5, 8, 9, 70][:k], dtype=np.int32)),
    'bool': lambda k: np.array([False, True]) if k == 2 else np.arange(k),
    'rev': lambda k: np.arange(k) - k + 1,
    'afloat': lambda k: np.arange(k) * 2.0 - 1,
    'digits': lambda k: np.array(['1', '10', '2', '3', '31', '4', '40', '5'][:k]),      # in the order of strings
}
NAME = st.sampled_from(sorted(NAMES))


def index_y(y, kind, k):
    return np.searchsorted(labels(kind, k), y)


@st.composite
def y_case(draw):
    ps = draw(pred_spec(2, 4, 2, 12))
    k = ps['k']
    return dict(ps=ps, q=draw(zoo.y_spec(k, glm=True)), a=draw(NAME), b=draw(NAME), bag=draw(bag_counts(k)), seed=draw(SEED))


@st.composite
def x_case(draw):
    ts = draw(train_spec(2, 4, 4, 12))
    k = ts['k']
    return dict(ts=ts, q=draw(zoo.x_spec(k, glm=True)), a=draw(NAME), b=draw(NAME), bag=draw(bag_counts(k)), seed=draw(SEED))


def rename(c):
    if 'ps' in c:
        k = c['ps']['k']
        A, i = build_preds(c['ps'])
        T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    else:
        k = c['ts']['k']
        A, i = build_train(c['ts'])
        T, _ = build_bag(c['ts'], c['bag'], c['seed'])
    yb = 'ps' in c
    ans = []
    for n in (c['a'], c['b']):
        y = NAMES[n](k)[i]
        try:
            q = zoo.fit(c['q'], None if yb else A, y, A if yb else None)
        except ValueError as e:
            if 'GLM' in str(e) or 'estimation infeasible' in str(e):
                ans.append('refused')
                continue
            raise
        check(np.array_equal(q.classes_, NAMES[n](k)), 'classes_ is %s, the labels are %s', q.classes_, NAMES[n](k))
        p = ask(q, c['q'], T)
        ans.append(p)
    p, r = ans
    msg = '%s with labels %s and %s' % (zoo.label(c['q']), NAMES[c['a']](k).tolist(), NAMES[c['b']](k).tolist())
    if isinstance(p, str) or isinstance(r, str):
        check(isinstance(p, str) and isinstance(r, str) and p == r, '%s: %s and %s', msg, p, r)
        return None
    check(np.array_equal(np.isnan(p), np.isnan(r)), '%s: %s and %s', msg, p, r)
    close(np.nan_to_num(r), np.nan_to_num(p), 1e-9, msg)
    return zoo.label(c['q']) if c['a'] != c['b'] else None


@sub('C10', 'rename_y', y_case, quick=900, big=56, thorough=12000,
     rule='quantifiers on predictions fitted with the same classes under two lists of names in the same order (integers of '
          'several types, strings, objects, booleans): the same estimate; non-trivial when the names differ')
def rename_y(c):
    return rename(c)


@sub('C10', 'rename_x', x_case, quick=600, big=37, thorough=9000, rule='as rename_y for the quantifiers on features')
def rename_x(c):
    return rename(c)


# ------------------------------------------------------------------ permutations
def perm(c, k):
    return np.random.RandomState(c['perm']).permutation(k)


def moved(spec, q, A, y, T, p, back, msg):
    """p: estimate of q; back: estimate with the classes permuted, already in the order of p."""
    if isinstance(p, str) or isinstance(back, str):
        return None      # a flat loss
    if np.abs(p - back).max() <= 1e-6:
        return True
    o = objective(spec, q, A, y, T)
    if o is None:
        close(back, p, 1e-6, msg)
        return True
    f, slack = o
    check(abs(f(p) - f(back)) <= slack, '%s: %s and %s, with losses %.9g and %.9g', msg, p, back, f(p), f(back))
    return True


@st.composite
def perm_y_case(draw):
    ps = draw(pred_spec(2, 4, 2, 12))
    k = ps['k']
    ps['grid'] = 0
    name = draw(st.sampled_from(['CC', 'PCC', 'AC', 'PAC', 'EM', 'DFy', 'DFy', 'HDy', 'FriedmanME', 'EDy', 'CvMy', 'MMy'] +
                                (['DeBias', 'SORDy', 'QUANTy'] if k == 2 else ['OVR'])))
    q = draw(zoo.y_spec(k, names=[name]))
    if q[0] == 'OVR':
        q[1]['base'] = draw(zoo.y_spec(2, names=['CC', 'PCC', 'AC', 'PAC', 'EM', 'HDy', 'FriedmanME', 'DeBias'], nested=False))
    if name in ('DFy', 'HDy', 'MMy') and k == 2 and q[1]['bin_strategy'] == 'equal_count':
        q[1]['bin_strategy'] = 'equal_width'       # cuts of the mirrored sample may round the other way
    if name == 'DFy' and q[1]['distribution_function'] == 'CDF':
        # the cumulative curves chain the descriptors, and the Hellinger distance depends on their order
        q[1]['distance'] = 'L2'
        if k == 2:
            q[1]['distribution_function'] = 'PDF'
    if k == 2 and name == 'MMy':
        return dict(ps=ps, q=['HDy', q[1]], perm=draw(SEED), bag=draw(bag_counts(k)), seed=draw(SEED))
    if k == 2 and name == 'FriedmanME' and q[1]['distance'] not in ('HD', 'L1', 'L2'):
        q[1]['distance'] = 'L2'
    return dict(ps=ps, q=q, perm=draw(SEED), bag=draw(bag_counts(k)), seed=draw(SEED))


@sub('C10', 'permute_y', perm_y_case, quick=700, big=43, thorough=10000,
     rule='nominal quantifiers on predictions with the classes (labels and columns) permuted: the estimate is permuted, or '
          'as good as it for the loss of the method when it has several solutions; non-trivial for other than the identity')
def permute_y(c):
    k = c['ps']['k']
    A, i = build_preds(c['ps'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    o = perm(c, k)                    # class j becomes o[j]
    inv = np.argsort(o)
    r = ask(zoo.fit(c['q'], None, o[i], A[:, inv]), c['q'], T[:, inv])
    q = zoo.fit(c['q'], None, i, A)
    if ill_conditioned(c['q'], q):
        return None
    p = ask(q, c['q'], T)
    back = r if isinstance(r, str) else r[o]
    ok = moved(c['q'], q, A, i, T, p, back, '%s with the classes permuted' % zoo.label(c['q']))
    return ok and zoo.label(c['q']) if (o != np.arange(k)).any() else None


@st.composite
def perm_x_case(draw):
    ts = draw(train_spec(2, 4, 4, 12))
    k = ts['k']
    ts['grid'] = 0
    name = draw(st.sampled_from(['DFX', 'DFX', 'HDX', 'EDX', 'PWKQuantifier'] + (['OVR'] if k > 2 else [])))
    q = draw(zoo.x_spec(k, names=[name]))
    if q[0] == 'OVR':
        q[1]['base'] = draw(zoo.x_spec(2, names=['DFX', 'HDX'], nested=False))
    if inner(q)[0] == 'PWKQuantifier':
        inner(q)[1]['n_neighbors'] = 1
    return dict(ts=ts, q=q, perm=draw(SEED), bag=draw(bag_counts(k)), seed=draw(SEED))


@sub('C10', 'permute_x', perm_x_case, quick=500, big=31, thorough=8000, rule='as permute_y for the nominal quantifiers on features')
def permute_x(c):
    k = c['ts']['k']
    A, i = build_train(c['ts'])
    T, _ = build_bag(c['ts'], c['bag'], c['seed'])
    o = perm(c, k)
    r = ask(zoo.fit(c['q'], A, o[i], None), c['q'], T)
    q = zoo.fit(c['q'], A, i, None)
    p = ask(q, c['q'], T)
    back = r if isinstance(r, str) else r[o]
    if inner(c['q'])[0] == 'PWKQuantifier':
        # one neighbour: the training predictions are the labels, so the mixture is identified
        pass
    ok = moved(c['q'], q, A, i, T, p, back, '%s with the classes permuted' % zoo.label(c['q']))
    return ok and zoo.label(c['q']) if (o != np.arange(k)).any() else None
