"""C28 several blocks of training predictions, as those of a repeated cross-validation."""
import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression
from sklearn.model_selection import RepeatedKFold, RepeatedStratifiedKFold

from pbt import zoo
from pbt.core import sub
from pbt.gen import (more, ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, pred_spec, probs_for,
                     train_spec)
from pbt.stubs import RecY, Scripted
from quantificationlib.bag_generator import PriorShift_BagGenerator
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.cross_validation import CV_estimator

# methods with one possible answer that depends on the proportions of the training predictions only
IDENTICAL = ('CC', 'PCC', 'EM', 'DeBias', 'EDy', 'OVR', 'FH')


def ask(f):
    try:
        return np.array(f(), dtype=float)
    except ValueError as e:
        if 'infinite minima' in str(e) or 'predict' in str(e):
            return 'refused'
        raise


def same(a, b, tol, msg):
    if isinstance(a, str) or isinstance(b, str):
        check(isinstance(a, str) and isinstance(b, str), '%s: %s and %s', msg, a, b)
    else:
        close(a, b, tol, msg)


def names(spec):
    return [spec[0]] + (names(spec[1]['base']) if 'base' in spec[1] else [])


def build(spec):
    if spec[0] == 'RecY':
        return RecY(grid=0)
    return zoo.build(spec)


@st.composite
def cases(draw):
    ps = draw(pred_spec(2, 4, 2, 12))
    k = ps['k']
    return dict(ps=ps, q=draw(zoo.y_spec(k, glm=False)), kind=draw(st.sampled_from(ANY_LABELS)), reps=draw(st.integers(2, more(5, 8))),
                bag=draw(bag_counts(k)), seed=draw(SEED), other=draw(SEED))


def blocks(c, P, y):
    """One block of predictions per repetition, for the examples in the same order."""
    r = np.random.RandomState(c['other'])
    idx = np.unique(y, return_inverse=True)[1].ravel()
    return [P] + [probs_for(idx, c['ps'], r) for _ in range(c['reps'] - 1)]


@sub('C28', 'blocks', cases, quick=1500, big=93,
     rule='quantifiers x 2 to 5 blocks of predictions: different blocks give the estimate of the concatenated predictions with the labels '
          'repeated explicitly, in the order of the blocks; identical blocks that of a single one (methods with a unique answer); the inputs are left alone; '
          'non-trivial when the blocks differ')
def blocks_check(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    B = blocks(c, P, y)
    A = np.vstack(B)
    A0, y0 = A.copy(), y.copy()
    msg = '%s with %d blocks' % (zoo.label(c['q']), c['reps'])
    got = zoo.fit(c['q'], None, y, A)
    got = ask(lambda: zoo.predict(got, c['q'], None, T))
    check(np.array_equal(A, A0) and np.array_equal(y, y0), '%s: the data were modified', msg)
    long = np.concatenate([y] * c['reps'])
    want = zoo.fit(c['q'], None, long, A)
    want = ask(lambda: zoo.predict(want, c['q'], None, T))
    same(got, want, 1e-9, msg)
    if set(names(c['q'])) <= set(IDENTICAL):
        got = zoo.fit(c['q'], None, y, np.vstack([P] * c['reps']))
        got = ask(lambda: zoo.predict(got, c['q'], None, T))
        want = zoo.fit(c['q'], None, y, P)
        want = ask(lambda: zoo.predict(want, c['q'], None, T))
        same(got, want, 2e-4, msg + ', all alike')
    return any(not np.array_equal(b, P) for b in B) and zoo.label(c['q'])


@st.composite
def ensemble_cases(draw):
    ps = draw(pred_spec(2, 4, 4, 12))
    k = ps['k']
    return dict(ps=ps, q=draw(st.one_of(st.just(['RecY', {}]), zoo.y_spec(k, nested=False, names=['CC', 'PCC', 'AC', 'PAC', 'HDy', 'EDy', 'EM', 'SORDy']))),
                kind=draw(st.sampled_from(ANY_LABELS)), reps=draw(st.integers(2, 4)), bag=draw(bag_counts(k)), seed=draw(SEED), other=draw(SEED),
                n=draw(st.integers(1, more(4, 8))), how=draw(st.sampled_from(['mean', 'median'])), bseed=draw(st.integers(0, 2 ** 31)))


@sub('C28', 'ensembles', ensemble_cases, quick=500, big=31,
     rule='ensembles over 2 to 4 blocks of predictions: every member gets its bag from each of the blocks, with the labels of the bag; '
          'oracle: members built here from the reported bags; non-trivial when the blocks differ')
def ensembles(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    B = blocks(c, P, y)
    msg = 'ensemble of %s with %d blocks' % (c['q'][0], c['reps'])

    def generator():
        return PriorShift_BagGenerator(n_bags=c['n'], bag_size=25, min_prevalence=min(0.15, 0.6 / c['ps']['k']), random_state=c['bseed'])
    prevs, idx = generator().generate_bags(None, y)
    want = []
    for i in range(c['n']):
        b = idx[:, i].astype(int)
        q = build(c['q']).fit(None, np.concatenate([y[b]] * c['reps']), predictions_train=np.vstack([M[b] for M in B]))
        want.append(ask(lambda: q.predict(None, predictions_test=T)))
    if any(isinstance(w, str) for w in want):
        return None
    w = getattr(np, c['how'])(np.array(want), axis=0)
    if w.sum() <= 0:
        return None
    m = EoQ(base_quantifier=build(c['q']), n_quantifiers=c['n'], bag_generator=generator(), combination_strategy=c['how'])
    m.fit(np.zeros((len(y), 1)), y, predictions_train=np.vstack(B))
    close(m.predict(None, predictions_test=T), w / w.sum(), 1e-6 if c['q'][0] == 'RecY' else 1e-4, msg + ', ' + c['how'])
    return any(not np.array_equal(b, P) for b in B) and '%s %s' % (c['q'][0], c['how'])


@st.composite
def cv_cases(draw):
    ts = draw(train_spec(2, 4, 5, 12))
    k = ts['k']
    return dict(ts=ts, q=draw(zoo.y_spec(k, nested=False)), kind=draw(st.sampled_from(ANY_LABELS)), reps=draw(st.integers(2, 3)), folds=draw(st.integers(2, 4)),
                strat=draw(st.booleans()), state=draw(st.integers(0, 99)), base=draw(st.sampled_from(['scripted', 'scripted', 'lr'])),
                bag=draw(bag_counts(k)), seed=draw(SEED))


@sub('C28', 'repeated_cv', cv_cases, quick=300, big=18,
     rule='quantifiers with a repeated cross-validation estimator that does not average: the estimate is that of the predictions of '
          'each repetition, computed here fold by fold, with the labels once per repetition; non-trivial always')
def repeated_cv(c):
    X, y = build_train(dict(c['ts'], scale=1.0), c['kind'])
    T, _ = build_bag(dict(c['ts'], scale=1.0), c['bag'], c['seed'])

    def model():
        return Scripted(gain=1.0) if c['base'] == 'scripted' else LogisticRegression()
    S = RepeatedStratifiedKFold if c['strat'] else RepeatedKFold
    cv = S(n_splits=c['folds'], n_repeats=c['reps'], random_state=c['state'])
    splits = list(cv.split(X, y))
    classes = np.unique(y)
    rows, long = [], []
    for r in range(c['reps']):
        P = np.full((len(y), len(classes)), np.nan)
        for tr, te in splits[r * c['folds']:(r + 1) * c['folds']]:
            if len(np.unique(y[tr])) < len(classes):
                return None
            P[te] = model().fit(X[tr], y[tr]).predict_proba(X[te])
        rows.append(P)
        long.append(y)
    ready = model().fit(X, y)
    crisp = c['q'][0] in zoo.CRISP
    PT = ready.predict_proba(T)
    msg = '%s with %d x %d cross-validation' % (zoo.label(c['q']), c['reps'], c['folds'])
    q = zoo.equip(c['q'], CV_estimator(model(), cv=cv, averaged_predictions=False), model())
    q.fit(X, y)
    got = ask(lambda: q.predict(T))
    ref = zoo.build(c['q'])
    A = np.vstack(rows)
    if crisp and (np.sort(A, axis=1)[:, -1] - np.sort(A, axis=1)[:, -2] < 1e-9).any():
        return None
    ref.fit(None, np.concatenate(long), predictions_train=A)
    want = ask(lambda: ref.predict(None, predictions_test=PT))
    same(got, want, 1e-6, msg)
    return '%s %s' % (zoo.label(c['q']), c['base'])
