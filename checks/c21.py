"""C21 one-vs-rest and Frank-and-Hall quantification."""
import numpy as np
from hypothesis import strategies as st
from sklearn.multiclass import OneVsRestClassifier

from pbt import zoo
from pbt.core import sub
from pbt.gen import (ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels,
                     pred_spec, train_spec, valid_prevalences)
from pbt.stubs import RecX, RecY, Scripted
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier, FrankAndHallMonotoneClassifier


def base(spec):
    if spec[0] == 'RecY':
        return RecY(grid=spec[1]['grid'])
    if spec[0] == 'RecX':
        return RecX(grid=spec[1]['grid'])
    return zoo.build(spec)


def rec(name):
    return st.sampled_from([0, 0, 1, 2, 3, -3, -5]).map(lambda g: [name, dict(grid=g)])


def groups(how, idx, k):
    return [(idx == i).astype(int) for i in range(k)] if how == 'OVR' else [(idx <= i).astype(int) for i in range(k - 1)]


def aggregate(how, v):
    v = np.array(v)
    if how == 'OVR':
        return v / v.sum() if v.sum() > 0 else np.ones(len(v)) / len(v)
    m = (np.maximum.accumulate(v) + np.minimum.accumulate(v[::-1])[::-1]) / 2
    return np.diff(np.r_[0.0, m, 1.0])


def ask(f):
    try:
        return f()
    except ValueError as e:
        if 'infinite minima' in str(e):
            return None
        raise


def judge(got, want, k, msg):
    if got is None or want is None:
        check(got is None and want is None, '%s: %s, expected %s', msg, got, want)
        return False
    valid_prevalences(np.asarray(got), k, msg, 1e-5)
    close(got, want, 1e-6, msg)
    return True


@st.composite
def pred_cases(draw):
    ps = draw(pred_spec(2, 5, 1, 12))
    how = draw(st.sampled_from(['OVR', 'FH']))
    if how == 'OVR' and ps['k'] == 2:
        ps['k'], ps['counts'] = 3, ps['counts'] + [draw(st.integers(1, 8))]
    return dict(ps=ps, how=how, q=draw(st.one_of(rec('RecY'), rec('RecY'), zoo.y_spec(2, nested=False))),
                kind=draw(st.sampled_from(ANY_LABELS)), bags=draw(st.lists(st.tuples(bag_counts(ps['k']), SEED), min_size=1, max_size=3)))


@sub('C21', 'predictions', pred_cases, quick=700, big=43,
     rule='decomposition x base quantifier (arbitrary estimates, and the real ones) with explicit predictions; oracle: base '
          'quantifiers fitted here on each relabelling and each pair of columns, aggregated; non-trivial with three or '
          'more classes')
def predictions(c):
    P, y = build_preds(c['ps'], c['kind'])
    k, how = c['ps']['k'], c['how']
    C = labels(c['kind'], k)
    idx = np.array([list(C).index(v) for v in y])

    def view(A):
        return A if how == 'OVR' else np.cumsum(A, axis=1)[:, :-1]
    b = base(c['q'])
    q = OneVsRestQuantifier(base_quantifier=b) if how == 'OVR' else FrankAndHallQuantifier(quantifier=b)
    own = []
    for i, yb in enumerate(groups(how, idx, k)):
        col = view(P)[:, i]
        own.append(base(c['q']).fit(None, yb, predictions_train=np.column_stack([1 - col, col])))
    V = view(P)
    V0, y0 = V.copy(), y.copy()
    check(q.fit(None, y, predictions_train=V) is q, 'fit does not return the quantifier')
    check(np.array_equal(V, V0) and np.array_equal(y, y0), 'fit modified its arguments')
    check(getattr(b, 'classes_', None) is None, 'the base quantifier of the user was fitted')
    check(np.array_equal(q.classes_, C), 'classes_ are %s', q.classes_)
    shown = False
    for cnt, s in c['bags']:
        T = view(bag_preds(c['ps'], cnt, s)[0])
        T0 = T.copy()
        v = ask(lambda: [o.predict(None, predictions_test=np.column_stack([1 - T[:, i], T[:, i]]))[1] for i, o in enumerate(own)])
        got = ask(lambda: q.predict(None, predictions_test=T))
        check(np.array_equal(T, T0), 'predict modified the predictions')
        shown |= judge(got, None if v is None else aggregate(how, v), k, '%s of %s' % (how, zoo.label(c['q'])))
    return shown and k > 2 and '%s %s' % (how, zoo.label(c['q']))


@st.composite
def feature_cases(draw):
    ts = draw(train_spec(2, 5, 2, 10))
    how = draw(st.sampled_from(['OVR', 'FH']))
    if how == 'OVR' and ts['k'] == 2:
        ts['k'], ts['counts'] = 3, ts['counts'] + [draw(st.integers(2, 8))]
    return dict(ts=ts, how=how, q=draw(st.one_of(rec('RecX'), zoo.x_spec(2, nested=False))),
                kind=draw(st.sampled_from(ANY_LABELS)), bags=draw(st.lists(st.tuples(bag_counts(ts['k'], 0, 8), SEED), min_size=1, max_size=2)))


@sub('C21', 'features', feature_cases, quick=300, big=18,
     rule='the same with base quantifiers that work on the features')
def features(c):
    X, y = build_train(c['ts'], c['kind'])
    k, how = c['ts']['k'], c['how']
    C = labels(c['kind'], k)
    idx = np.array([list(C).index(v) for v in y])
    b = base(c['q'])
    q = OneVsRestQuantifier(base_quantifier=b) if how == 'OVR' else FrankAndHallQuantifier(quantifier=b)
    own = [base(c['q']).fit(X, yb) for yb in groups(how, idx, k)]
    q.fit(X, y)
    check(np.array_equal(q.classes_, C), 'classes_ are %s', q.classes_)
    shown = False
    for cnt, s in c['bags']:
        T = build_bag(c['ts'], cnt, s)[0]
        v = ask(lambda: [o.predict(T)[1] for o in own])
        shown |= judge(ask(lambda: q.predict(T)), None if v is None else aggregate(how, v), k, '%s of %s' % (how, zoo.label(c['q'])))
    return shown and k > 2 and '%s %s' % (how, zoo.label(c['q']))


@st.composite
def model_cases(draw):
    ts = draw(train_spec(2, 5, 2, 8))
    how = draw(st.sampled_from(['OVR', 'FH']))
    if how == 'OVR' and ts['k'] == 2:
        ts['k'], ts['counts'] = 3, ts['counts'] + [draw(st.integers(2, 8))]
    return dict(ts=ts, how=how, q=draw(st.one_of(rec('RecY'), zoo.y_spec(2, names=['CC', 'PCC', 'AC', 'PAC', 'DFy', 'HDy', 'EDy', 'EM', 'SORDy'],
                                                                          nested=False))),
                kind=draw(st.sampled_from(ANY_LABELS)), gain=draw(st.sampled_from([0.3, 2.0])), grid=draw(st.sampled_from([0, 0, 2, 8])),
                shared=draw(st.booleans()), before=draw(st.booleans()),
                given=draw(st.sampled_from(['both', 'both', 'train', 'test'])), explicit=draw(st.sampled_from(['none', 'none', 'train', 'test'])),
                mono=draw(st.booleans()), bag=draw(bag_counts(ts['k'], 0, 8)), seed=draw(SEED))


@sub('C21', 'classifiers', model_cases, quick=500, big=31,
     rule='the same with decomposed classifiers (fitted before or not, one for training and testing or one for each, mixed with '
          'explicit predictions in their place, or nothing for training when the method needs nothing); oracle: binary models trained here')
def classifiers(c):
    X, y = build_train(c['ts'], c['kind'])
    X = X / c['ts']['scale']
    k, how = c['ts']['k'], c['how']
    C = labels(c['kind'], k)
    idx = np.array([list(C).index(v) for v in y])
    T = build_bag(c['ts'], c['bag'], c['seed'])[0] / c['ts']['scale']
    r = np.random.RandomState(c['seed'])

    def model(n):
        return Scripted(gain=c['gain'] * (1 + n), grid=c['grid'])

    def group_model(n):
        if how == 'OVR':
            return OneVsRestClassifier(model(n))
        return (FrankAndHallMonotoneClassifier if c['mono'] else FrankAndHallClassifier)(estimator=model(n))
    e_train = group_model(0)
    e_test = e_train if c['shared'] else group_model(1)
    ybs = groups(how, idx, k)
    m_train = [model(0).fit(X, yb) for yb in ybs]
    m_test = m_train if c['shared'] else [model(1).fit(X, yb) for yb in ybs]
    # without the classifier for training or for testing, predictions take its place; some methods do not need any for training
    alone = c['given'] == 'test' and c['q'][0] in ('CC', 'PCC') and c['explicit'] != 'train'
    explicit_train = c['explicit'] == 'train' or c['given'] == 'test' and not alone
    explicit_test = c['explicit'] == 'test' or c['given'] == 'train'
    kw = dict(both=dict(estimator_train=e_train, estimator_test=e_test), train=dict(estimator_train=e_train),
              test=dict(estimator_test=e_test))[c['given']]
    used = {id(e): e for e in kw.values()}
    if c['before']:
        for e in used.values():
            e.fit(X, y)
    q = OneVsRestQuantifier(base_quantifier=base(c['q']), **kw) if how == 'OVR' else FrankAndHallQuantifier(quantifier=base(c['q']), **kw)
    A = np.column_stack([m.predict_proba(X)[:, 1] for m in m_train])
    B = np.column_stack([m.predict_proba(T)[:, 1] for m in m_test])
    Scripted.LOG.clear()
    if explicit_train:
        A = r.uniform(0, 1, A.shape)
        q.fit(X, y, predictions_train=A)
    else:
        q.fit(X, y)
    n_fits = len(Scripted.LOG)
    check(n_fits == (0 if c['before'] else len(ybs) * len(used)), '%d binary models were trained', n_fits)
    if explicit_test:
        B = r.uniform(0, 1, B.shape)
        got = ask(lambda: q.predict(T, predictions_test=B))
    else:
        got = ask(lambda: q.predict(T))
    check(len(Scripted.LOG) == n_fits, 'predict trains models')
    own = [base(c['q']).fit(None, yb, predictions_train=np.column_stack([1 - A[:, i], A[:, i]])) for i, yb in enumerate(ybs)]
    v = ask(lambda: [o.predict(None, predictions_test=np.column_stack([1 - B[:, i], B[:, i]]))[1] for i, o in enumerate(own)])
    return judge(got, None if v is None else aggregate(how, v), k, '%s of %s' % (how, zoo.label(c['q']))) and k > 2 and \
        '%s %s %s' % (how, zoo.label(c['q']), c['explicit'] + c['given'])
