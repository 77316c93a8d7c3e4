"""C18 Frank and Hall classifiers."""
import numpy as np
from hypothesis import strategies as st
from joblib import parallel_backend
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB

from pbt.core import sub
from pbt.gen import upto, more, ANY_LABELS, SEED, build_bag, build_train, check, close, labels, train_spec
from pbt.stubs import Scripted
from quantificationlib.ordinal.trees import OrdinalQuantificationTree
from quantificationlib.estimators.frank_and_hall import (FHLabelBinarizer, FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)

MODELS = {'plain': FrankAndHallClassifier, 'monotone': FrankAndHallMonotoneClassifier, 'tree': FrankAndHallTreeClassifier}


@st.composite
def cases(draw):
    ts = draw(train_spec(2, 7, 1, 6))
    return dict(ts=ts, which=draw(st.sampled_from(sorted(MODELS))), kind=draw(st.sampled_from(ANY_LABELS)),
                gain=draw(st.sampled_from([0.1, 1.0, 5.0])), grid=draw(st.sampled_from([0, 0, 1, 2, 10])),
                params=draw(st.booleans()), jobs=draw(st.sampled_from([None] * 8 + [1, 2])),
                measure=draw(st.sampled_from(['default', 'default', 'absolute', 'square', 'constant', 'steps'])),
                n=draw(st.integers(1, upto(12))), seed=draw(SEED), twice=draw(st.booleans()))


def corrected(L):
    """Average of the running maximum and of the reversed running minimum."""
    up = np.maximum.accumulate(L, axis=1)
    down = np.minimum.accumulate(L[:, ::-1], axis=1)[:, ::-1]
    return (up + down) / 2


def kld(p, q, eps=1e-12):
    v = 0.0
    if p > 0:
        v += p * np.log2(p / (eps if q == 0 else q))
    if p < 1:
        v += (1 - p) * np.log2((1 - p) / (eps if q == 1 else 1 - q))
    return v


MEASURES = {'default': kld, 'absolute': lambda p, q: abs(p - q), 'square': lambda p, q: (p - q) ** 2,
            # exact ties: the first of the best thresholds is the one chosen
            'constant': lambda p, q: 0.25, 'steps': lambda p, q: 0.0 if p < 0.5 + 1e-9 else 1.0}


def trees(scores, lo, hi):
    """Trees over thresholds lo..hi that split at the best one (all of the equally good ones)."""
    if lo > hi:
        return [None]
    best = min(scores[lo:hi + 1])
    out = []
    for i in range(lo, hi + 1):
        if scores[i] <= best + 1e-9 * max(1, abs(best)):
            out += [(i, a, b) for a in trees(scores, lo, i - 1) for b in trees(scores, i + 1, hi)]
    return out[:400]


def first_tree(scores, lo, hi):
    if lo > hi:
        return None
    i = lo + int(np.argmin(scores[lo:hi + 1]))
    return i, first_tree(scores, lo, i - 1), first_tree(scores, i + 1, hi)


def tree_proba(tree, L, k):
    P = np.ones((len(L), k))

    def walk(node, lo, hi):
        if node is None:
            return
        t, a, b = node
        P[:, lo:t + 1] *= L[:, [t]]
        P[:, t + 1:hi + 1] *= 1 - L[:, [t]]
        walk(a, lo, t)
        walk(b, t + 1, hi)
    walk(tree, 0, k - 1)
    return P


@sub('C18', 'classifiers', cases, quick=1500, big=93,
     rule='plain, monotone and tree classifiers over reproducible arbitrary binary models (with ties, zeros and ones); oracle: '
          'the same models trained here on the grouped labels and combined by the documented formulas; one model per '
          'threshold; non-trivial with three or more classes')
def classifiers(c):
    X, y = build_train(c['ts'], c['kind'])
    k = c['ts']['k']
    C = labels(c['kind'], k)
    idx = np.searchsorted(C, y) if c['kind'] != 'str' else np.array([list(C).index(v) for v in y])
    T, _ = build_bag(c['ts'], [c['n']] * k, c['seed'])
    gains = [c['gain'] * (1 + i) for i in range(k - 1)] if c['params'] else [c['gain']] * (k - 1)
    kw = dict(estimator=Scripted(gain=c['gain'], grid=c['grid']), n_jobs=c['jobs'])
    if c['params']:
        kw['params_fit'] = [dict(gain=g) for g in gains]
    if c['which'] == 'tree' and c['measure'] != 'default':
        kw['performance_measure'] = MEASURES[c['measure']]
    f = MODELS[c['which']](**kw)
    X0, y0 = X.copy(), y.copy()
    Scripted.LOG.clear()
    with parallel_backend('threading', n_jobs=1):
        if c['twice']:
            f.fit(X[:, ::-1] + 1, y[::-1])
            Scripted.LOG.clear()
        check(f.fit(X, y) is f, 'fit does not return the classifier')
    log = list(Scripted.LOG)
    check(np.array_equal(X, X0) and np.array_equal(y, y0), 'fit modified the data')
    check(not hasattr(kw['estimator'], 'classes_'), 'the estimator of the user was fitted')
    check(np.array_equal(f.classes_, C), 'classes_ are %s', f.classes_)
    check(len(log) == k - 1, '%d models trained for %d thresholds', len(log), k - 1)
    own = []
    for t in range(k - 1):
        y_t = (idx <= t).astype(int)
        hits = [1 for a, b in log if np.array_equal(a, X) and np.array_equal(b, y_t)]
        check(len(hits) >= 1, 'no model was trained on classes up to %s against the others', C[t])
        own.append(Scripted(gain=gains[t], grid=c['grid']).fit(X, y_t))
    buf = T[::-1].copy()
    f.predict_proba(buf)
    buf[:] = T                # the same array object, with other content
    for what, D in (('an array predicted before', buf), ('other data', T), ('training data', X), ('one example', T[:1])):
        L = np.column_stack([m.predict_proba(D)[:, 1] for m in own])
        got = np.asarray(f.predict_proba(D))
        msg = '%s: probabilities of %s' % (c['which'], what)
        check(got.shape == (len(D), k), '%s: shape %s', msg, got.shape)
        check((got >= -1e-9).all(), '%s: negative: %s', msg, got.min())
        if c['which'] == 'plain':
            want = np.column_stack([L[:, 0]] + [(1 - L[:, i - 1]) * L[:, i] for i in range(1, k - 1)] + [1 - L[:, -1]])
            close(got, want, 1e-9, msg)
        else:
            close(got.sum(axis=1), np.ones(len(D)), 1e-9, msg + ', sums')
            if c['which'] == 'monotone':
                M = corrected(L)
                close(got, np.diff(np.column_stack([np.zeros(len(D)), M, np.ones(len(D))]), axis=1), 1e-9, msg)
            else:
                F = np.column_stack([m.predict_proba(X)[:, 1] for m in own])
                s = [MEASURES[c['measure']](np.mean(idx <= t), F[:, t].mean()) for t in range(k - 1)]
                exact = c['measure'] in ('constant', 'steps')
                alts = [tree_proba(t, L, k) for t in ([first_tree(s, 0, k - 2)] if exact else trees(s, 0, k - 2))]
                check(any(np.allclose(got, a, atol=1e-9) for a in alts), '%s: %s, with scores %s expected %s', msg, got[:3], s,
                      alts[0][:3])
        if c['which'] == 'tree' and what == 'other data':
            text = [t.strip() for t in str(f.tree_).splitlines()]
            names = [str(v) for v in C]
            check([t for t in text if t in names] == names and len(text) == 2 * k - 1, 'the text of the tree is %s', text)
        crisp = np.asarray(f.predict(D))
        check(crisp.shape == (len(D),), '%s: shape of the classes %s', msg, crisp.shape)
        pos = np.array([list(C).index(v) for v in crisp])
        check((got[np.arange(len(D)), pos] >= got.max(axis=1) - 1e-12).all(), '%s: predict is not the most probable class', msg)
    return k > 2 and '%s %d' % (c['which'], k)


@st.composite
def real_cases(draw):
    return dict(ts=draw(train_spec(2, 5, 2, 10)), which=draw(st.sampled_from(sorted(MODELS))), kind=draw(st.sampled_from(ANY_LABELS)),
                model=draw(st.sampled_from(['lr', 'nb'])), seed=draw(SEED))


@sub('C18', 'real_models', real_cases, quick=150,
     rule='the same with logistic regression and naive Bayes: models, probabilities of the lower groups, combination; '
          'non-trivial with three or more classes')
def real_models(c):
    X, y = build_train(c['ts'], c['kind'])
    k = c['ts']['k']
    C = labels(c['kind'], k)
    X = X / c['ts']['scale']
    idx = np.array([list(C).index(v) for v in y])
    T, _ = build_bag(c['ts'], [3] * k, c['seed'])
    T = T / c['ts']['scale']

    def model():
        return LogisticRegression() if c['model'] == 'lr' else GaussianNB(var_smoothing=1e-2)
    f = MODELS[c['which']](estimator=model()).fit(X, y)
    own = [model().fit(X, (idx <= t).astype(int)) for t in range(k - 1)]
    L = np.column_stack([m.predict_proba(T)[:, 1] for m in own])
    got = f.predict_proba(T)
    if c['which'] == 'plain':
        want = np.column_stack([L[:, 0]] + [(1 - L[:, i - 1]) * L[:, i] for i in range(1, k - 1)] + [1 - L[:, -1]])
    elif c['which'] == 'monotone':
        want = np.diff(np.column_stack([np.zeros(len(T)), corrected(L), np.ones(len(T))]), axis=1)
    else:
        F = np.column_stack([m.predict_proba(X)[:, 1] for m in own])
        s = [kld(np.mean(idx <= t), F[:, t].mean()) for t in range(k - 1)]
        if len(trees(np.round(s, 6), 0, k - 2)) > 1:
            return None       # equally good thresholds: the solvers of the models decide
        want = tree_proba(trees(s, 0, k - 2)[0], L, k)
    close(got, want, 1e-6, '%s of %s' % (c['which'], c['model']))
    return k > 2 and '%s %s' % (c['which'], c['model'])


@st.composite
def label_cases(draw):
    k = draw(st.integers(2, more(6, 6)))
    n = draw(st.integers(0, upto(12)))
    return dict(k=k, extra=draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n)), kind=draw(st.sampled_from(ANY_LABELS)),
                new=draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=8)),
                marks=draw(st.sampled_from([None, [0, 1], [-1, 1], [2, 5], [-3, 0]])), seed=draw(SEED))


@sub('C18', 'grouped_labels', label_cases, quick=600, big=37,
     rule='label grouping x labels x marks: one column per threshold, positive for the classes up to it, also for data without '
          'some of the classes; non-trivial with three or more classes')
def grouped_labels(c):
    C = labels(c['kind'], c['k'])
    r = np.random.RandomState(c['seed'])
    idx = r.permutation(np.r_[np.arange(c['k']), np.array(c['extra'], dtype=int)])
    neg, pos = c['marks'] or (0, 1)
    b = FHLabelBinarizer() if c['marks'] is None else FHLabelBinarizer(neg_label=neg, pos_label=pos)
    got = np.asarray(b.fit_transform(C[idx]))
    check(np.array_equal(b.classes_, C), 'classes %s', b.classes_)
    for what, g, i in (('training labels', got, idx), ('other labels', np.asarray(b.transform(C[c['new']])), np.array(c['new']))):
        # columns of the thresholds; a last one that holds for every class is allowed
        check(g.shape[0] == len(i) and g.shape[1] in (c['k'] - 1, c['k']), '%s: shape %s', what, g.shape)
        for t in range(g.shape[1]):
            check(np.array_equal(g[:, t], np.where(i <= t, pos, neg)), '%s: column %d is %s', what, t, g[:, t])
    return c['k'] > 2 and '%d %s' % (c['k'], c['marks'])


@st.composite
def quantifier_cases(draw):
    return dict(ts=draw(train_spec(2, 6, 1, 6)), kind=draw(st.sampled_from(ANY_LABELS)), gain=draw(st.sampled_from([0.1, 1.0, 5.0])),
                grid=draw(st.sampled_from([0, 0, 1, 2, 10])), n=draw(st.integers(1, upto(12))), seed=draw(SEED),
                given=draw(st.sampled_from(['binary', 'tree', 'measured tree', 'fitted tree'])), again=draw(st.booleans()))


@sub('C18', 'quantification_tree', quantifier_cases, quick=500, big=31,
     rule='the quantification tree, given a binary model or a tree of them (fitted or not): the mean of the probabilities of the tree '
          'of its threshold models, for several bags; non-trivial with three or more classes')
def quantification_tree(c):
    X, y = build_train(c['ts'], c['kind'])
    k = c['ts']['k']
    C = labels(c['kind'], k)
    idx = np.array([list(C).index(v) for v in y])
    T, _ = build_bag(c['ts'], [c['n']] * k, c['seed'])
    model = Scripted(gain=c['gain'], grid=c['grid'])
    measure = MEASURES['absolute'] if c['given'] == 'measured tree' else kld
    given = model
    r = np.random.RandomState(c['seed'])
    if c['given'] == 'measured tree':
        given = FrankAndHallTreeClassifier(estimator=model, performance_measure=measure)
    elif c['given'] != 'binary':
        given = FrankAndHallTreeClassifier(estimator=model)
    if c['given'] == 'fitted tree':
        given.fit(X, y)
    q = OrdinalQuantificationTree(given)
    q.fit(X, y)
    check(not hasattr(model, 'classes_'), 'the model of the user was fitted')
    own = [Scripted(gain=c['gain'], grid=c['grid']).fit(X, (idx <= t).astype(int)) for t in range(k - 1)]
    F = np.column_stack([m.predict_proba(X)[:, 1] for m in own])
    s = [measure(np.mean(idx <= t), F[:, t].mean()) for t in range(k - 1)]
    alts = trees(s, 0, k - 2)
    buf = X.copy()
    q.predict(buf)
    buf[:] = T[r.randint(len(T), size=len(X))] if c['again'] else X[::-1]
    for D in [buf, T, T[:1], X] + ([T] if c['again'] else []):
        got = np.asarray(q.predict(D))
        L = np.column_stack([m.predict_proba(D)[:, 1] for m in own])
        want = [tree_proba(t, L, k).mean(axis=0) for t in alts]
        check(got.shape == (k,), 'shape %s', got.shape)
        check(any(np.allclose(got, w, atol=1e-9) for w in want), 'quantification tree (%s): %s, with scores %s expected %s', c['given'],
              got, s, want[0])
    return k > 2 and '%s %d' % (c['given'], k)
