"""C20 predictions by cross-validation."""
import warnings

import numpy as np
from hypothesis import strategies as st
from sklearn.model_selection import (GroupKFold, KFold, LeaveOneOut, PredefinedSplit, RepeatedKFold, RepeatedStratifiedKFold,
                                     StratifiedKFold)

from pbt.core import sub
from pbt.gen import upto, ANY_LABELS, SEED, build_bag, build_train, check, close, labels, train_spec
from pbt.stubs import Scripted
from quantificationlib.estimators.cross_validation import CV_estimator


@st.composite
def cases(draw):
    ts = draw(train_spec(2, 4, 5, 12))
    ts['grid'] = 0
    ways = ['none', 'int', 'int', 'kfold', 'skf', 'rkf', 'rskf', 'rskf', 'list', 'uneven', 'loo', 'group', 'pre']
    return dict(ts=ts, kind=draw(st.sampled_from(ANY_LABELS)), gain=draw(st.sampled_from([0.3, 1.0, 4.0])),
                cv=draw(st.sampled_from(ways if sum(ts['counts']) < 60 else [w for w in ways if w != 'loo'])),
                folds=draw(st.integers(2, 5)), reps=draw(st.integers(1, 3)), state=draw(st.one_of(st.none(), st.integers(0, 99))),
                avg=draw(st.booleans()), voting=draw(st.sampled_from(['default', 'hard', 'soft'])),
                weights=draw(st.sampled_from([False, False, True])), seed=draw(SEED),
                before=draw(st.booleans()), bag=draw(st.integers(1, upto(5))))


def splitter(c, y, r):
    n, f = len(y), c['folds']
    how = c['cv']
    if how == 'none':
        return None, None, 5, 1
    if how == 'int':
        return f, None, f, 1
    if how == 'kfold':
        return KFold(f, shuffle=True, random_state=c['state']), None, f, 1
    if how == 'skf':
        return StratifiedKFold(f, shuffle=c['state'] is not None, random_state=c['state']), None, f, 1
    if how == 'rkf':
        return RepeatedKFold(n_splits=f, n_repeats=c['reps'], random_state=c['state']), None, f, c['reps']
    if how == 'rskf':
        return RepeatedStratifiedKFold(n_splits=f, n_repeats=c['reps'], random_state=c['state']), None, f, c['reps']
    if how == 'loo':
        return LeaveOneOut(), None, n, 1
    if how == 'group':
        g = r.permutation(np.arange(n) % (f + 2))
        return GroupKFold(f), g, f, 1
    part = r.permutation(np.arange(n) % f)
    if how == 'pre':
        return PredefinedSplit(part), None, f, 1
    out = []
    sizes = [f if how == 'list' else int(r.randint(2, 6)) for _ in range(c['reps'])]
    for f in sizes:
        part = r.permutation(np.arange(n) % f)
        for j in range(f):
            out.append((np.where(part != j)[0], r.permutation(np.where(part == j)[0])))
    return out, None, sizes, c['reps']


@sub('C20', 'folds', cases, quick=1200, big=75,
     rule='splitters (integers, none, fixed, shuffled without seed, repeated, groups, explicit lists, also with repetitions of different numbers of folds) x averaged or stacked x voting '
          'x refitting; the models that the library trains are recorded: each training example must get the predictions '
          'of the models that did not see it, one per repetition, and other data those of all the models; non-trivial when '
          'the models disagree')
def folds(c):
    X, y = build_train(c['ts'], c['kind'])
    X = X / c['ts']['scale']
    r = np.random.RandomState(c['seed'])
    n, k = len(y), c['ts']['k']
    C = labels(c['kind'], k)
    T, _ = build_bag(c['ts'], [c['bag']] * k, c['seed'])
    T = T / c['ts']['scale']
    cv, groups, nf, reps = splitter(c, y, r)
    sizes = nf if isinstance(nf, list) else [nf] * reps              # folds of each repetition
    first = np.r_[0, np.cumsum(sizes)]
    kw = dict(averaged_predictions=c['avg'])
    if c['voting'] != 'default':
        kw['voting'] = c['voting']
    if groups is not None:
        kw['groups'] = groups
    w = None
    if c['weights']:
        w = r.uniform(0.5, 2, n)
        kw['fit_params'] = dict(sample_weight=w)
    base = Scripted(gain=c['gain'])
    e = CV_estimator(base, cv=cv, **kw)
    X0, y0 = X.copy(), y.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        Scripted.LOG.clear()
        if c['before']:
            e.fit(X + 1, y)
            if min(len(np.unique(b)) for _, b in Scripted.LOG) == k:
                e.predict_proba(X)
        Scripted.LOG.clear()
        check(e.fit(X, y) is e, 'fit does not return the estimator')
        log = list(Scripted.LOG)
    check(np.array_equal(X, X0) and np.array_equal(y, y0), 'fit modified the data')
    check(not hasattr(base, 'classes_'), 'the estimator of the user was fitted')
    check(np.array_equal(e.classes_, C), 'classes_ are %s', e.classes_)
    check(len(log) == first[-1], '%d models trained, expected %s', len(log), sizes)
    pos = {tuple(row): i for i, row in enumerate(X)}
    if len(pos) < n:
        return None
    models, seen = [], np.zeros((len(log), n), dtype=bool)
    for j, (a, b) in enumerate(log):
        ids = [pos[tuple(row)] for row in a]
        check(len(set(ids)) == len(ids) and np.array_equal(y[ids], b), 'model %d: examples and labels do not match', j)
        seen[j, ids] = True
        if len(np.unique(b)) < k:
            return None       # a fold without one of the classes
        m = Scripted(gain=c['gain'])
        models.append(m.fit(a, b, sample_weight=w[ids]) if w is not None else m.fit(a, b))
    Scripted.LOG.clear()
    for rep in range(reps):
        check((seen[first[rep]:first[rep + 1]].sum(axis=0) == sizes[rep] - 1).all(),
              'repetition %d: the examples are not left out exactly once', rep)
    if c['cv'] in ('none', 'int'):
        for j in range(nf):       # stratified
            cnt = [np.sum(y[~seen[j]] == v) for v in C]
            check(all(abs(a - np.sum(y == v) / nf) < 1 for a, v in zip(cnt, C)), 'fold %d is not stratified: %s', j, cnt)
    out = np.zeros((reps, n, k))
    for rep in range(reps):
        for j in range(first[rep], first[rep + 1]):
            out[rep, ~seen[j]] = models[j].predict_proba(X[~seen[j]])
    near = []
    for i in {0, n - 1, int(r.randint(n))}:       # all but one of the rows of the training set
        D = X.copy()
        D[i] = T[r.randint(len(T))]
        if not np.array_equal(D, X):
            near.append(('all but row %d of the training data' % i, D, np.array([m.predict_proba(D) for m in models])))
    D = np.vstack([X[:1], T[r.randint(len(T), size=n - 1)]])      # and only the first or the last
    near.append(('first training example and others', D, np.array([m.predict_proba(D) for m in models])))
    D = np.vstack([T[r.randint(len(T), size=n - 1)], X[-1:]])
    near.append(('last training example and others', D, np.array([m.predict_proba(D) for m in models])))
    if np.all(np.nextafter(X, 9e9) != X):
        D = np.nextafter(X, 9e9)
        near.append(('almost the training data', D, np.array([m.predict_proba(D) for m in models])))
    buf = np.empty_like(X)        # one array object, with the content of each of these
    refilled = [('refilled array, ' + what, D, P) for what, D, P in near + [('training data', X, out)] if c['seed'] % 2]
    for what, D, P in (*near, ('training data', X, out), ('a copy of the training data', X.copy(), out),
                       ('other data', T, np.array([m.predict_proba(T) for m in models])),
                       ('permuted training data', X[::-1], np.array([m.predict_proba(X[::-1]) for m in models])),
                       ('part of the training data', X[1:], np.array([m.predict_proba(X[1:]) for m in models])),
                       ('one example', T[:1], np.array([m.predict_proba(T[:1]) for m in models])),
                       ('training data again', X, out), *refilled):
        if what.startswith('refilled'):
            buf[:] = D
            D = buf
        msg = '%s, %s%s' % (what, c['cv'], ' (averaged)' if c['avg'] else '')
        got = np.asarray(e.predict_proba(D))
        close(got, P.mean(axis=0) if c['avg'] else P.reshape(-1, k), 1e-9, msg)
        crisp = np.asarray(e.predict(D))
        if c['avg'] and c['voting'] == 'soft':
            votes = P.mean(axis=0)
        elif c['avg']:
            votes = np.array([[np.sum(P[:, i].argmax(axis=1) == j) for j in range(k)] for i in range(P.shape[1])])
        else:
            votes = P.reshape(-1, k)
        check(crisp.shape == (len(votes),), '%s: %d classes for %d predictions', msg, len(crisp), len(votes))
        ci = np.array([list(C).index(v) for v in crisp])
        check((votes[np.arange(len(votes)), ci] >= votes.max(axis=1) - 1e-12).all(), '%s: wrong votes (%s)', msg, c['voting'])
        if c['avg'] and c['voting'] != 'soft':
            check(np.array_equal(ci, votes.argmax(axis=1)), '%s: a tie of votes is not for the first class', msg)
    differ = np.ptp(np.array([m.predict_proba(T) for m in models]), axis=0).max() > 1e-3
    return differ and '%s %s %s' % (c['cv'], 'avg' if c['avg'] else 'stack', c['voting'])
