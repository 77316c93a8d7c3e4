"""C11 estimators and precomputed predictions are interchangeable."""
import numpy as np
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.exceptions import NotFittedError
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB
from sklearn.tree import DecisionTreeClassifier

from pbt import zoo
from pbt.core import sub
from pbt.gen import ANY_LABELS, SEED, bag_counts, build_bag, build_preds, bag_preds, build_train, check, close, pred_spec, \
    train_spec


class Reader(BaseEstimator, ClassifierMixin):
    """Reads its probabilities from a block of columns of the features. Counts its fits; refuses to answer unfitted."""

    def __init__(self, block=0, crisp=False):
        self.block = block
        self.crisp = crisp

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.n_fits_ = getattr(self, 'n_fits_', 0) + 1
        self.seen_ = (np.array(X), np.array(y))
        return self

    def _p(self, X):
        if not hasattr(self, 'classes_'):
            raise NotFittedError('not fitted')
        k = len(self.classes_)
        return np.array(X[:, self.block * k:(self.block + 1) * k], dtype=float)

    def predict(self, X):
        best = self._p(X).argmax(axis=1)
        return self.classes_[best]

    def __getattr__(self, name):
        if name == 'predict_proba' and not self.__dict__.get('crisp'):
            return self._p
        raise AttributeError(name)


def ask(f):
    try:
        return np.array(f(), dtype=float)
    except ValueError as e:
        if 'infinite minima' in str(e):
            return 'flat'
        raise


def same(a, b, msg):
    if isinstance(a, str) or isinstance(b, str):
        check(isinstance(a, str) and isinstance(b, str), '%s: %s and %s', msg, a, b)
    else:
        close(a, b, 1e-9, msg)


CRISP = ('CC', 'AC', 'ACOrdinal')


@st.composite
def case(draw):
    ps = draw(pred_spec(2, 4, 2, 12))
    k = ps['k']
    return dict(ps=ps, q=draw(zoo.y_spec(k, nested=False, glm=False)), kind=draw(st.sampled_from(ANY_LABELS)),
                bag=draw(bag_counts(k)), seed=draw(SEED), other=draw(SEED), pre_train=draw(st.booleans()),
                pre_test=draw(st.booleans()), shared=draw(st.booleans()), crisp=draw(st.booleans()),
                explicit_train=draw(st.booleans()), explicit_test=draw(st.booleans()))


@sub('C11', 'routes', case, quick=1500, big=93, thorough=20000,
     rule='scripted classifiers (a different one for training and for testing, or one for both; fitted beforehand or not; '
          'with or without probabilities) or explicit predictions in any combination, against explicit predictions only; '
          'each classifier is fitted once, on the training set, and only when it was not; non-trivial when the two '
          'classifiers differ')
def routes(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    r = np.random.RandomState(c['other'])
    P2, T2 = r.dirichlet(np.ones(c['ps']['k']), len(P)), r.dirichlet(np.ones(c['ps']['k']), len(T))
    # block 0 is what the train estimator says, block 1 what the test estimator says, block 2 something else
    X, B = np.hstack([P, P2, P2[::-1]]), np.hstack([T2, T, T2[::-1]])
    crisp = c['crisp'] and c['q'][0] in CRISP
    e1 = Reader(0, crisp)
    e2 = e1 if c['shared'] else Reader(1, crisp)
    test = T2 if c['shared'] else T
    sets = []
    for e, pre in ((e1, c['pre_train']), (e2, c['pre_test'])):
        if pre and not hasattr(e, 'classes_'):
            e.fit(X[::2][:2], np.unique(y))          # fitted elsewhere, on something else with the same classes
            sets.append(e)
    want = zoo.fit(c['q'], None, y, P)
    want = ask(lambda: want.predict(None, predictions_test=test))
    msg = '%s with estimators' % zoo.label(c['q'])
    # explicit predictions win over the estimators
    train_kw = dict(predictions_train=P) if c['explicit_train'] else {}
    test_kw = dict(predictions_test=test) if c['explicit_test'] else {}
    if c['explicit_train']:
        e1.block = 2 if not c['shared'] else 0
    q = zoo.equip(c['q'], e1, e2)
    q.fit(X, y, **train_kw)
    if c['explicit_test'] and not c['shared']:
        e2.block = 2
    got = ask(lambda: q.predict(B, **test_kw))
    same(got, want, msg)
    names = q.get_params(deep=False)
    for e in {id(e1): e1, id(e2): e2}.values():
        if e is e1 and e is not e2 and 'estimator_train' not in names:
            continue
        check(e.n_fits_ == 1, '%s: a classifier was fitted %s times', msg, e.n_fits_)
        if e not in sets:
            check(np.array_equal(e.seen_[0], X) and np.array_equal(e.seen_[1], y),
                  '%s: a classifier was not trained on the training set as given', msg)
    return zoo.label(c['q'])


@st.composite
def forms_case(draw):
    ps = draw(pred_spec(2, 4, 2, 12))
    k = ps['k']
    return dict(ps=ps, q=draw(zoo.y_spec(k, names=['CC', 'AC', 'ACOrdinal'], nested=False)),
                kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(k)), seed=draw(SEED),
                train_form=draw(st.sampled_from(['matrix', 'labels', 'column', 'pos', 'poscol'])),
                test_form=draw(st.sampled_from(['matrix', 'labels', 'column', 'pos', 'poscol'])))


def form(P, L, f):
    crisp = L[P.argmax(axis=1)]
    if f == 'labels':
        return crisp
    if f == 'column':
        return crisp.reshape(-1, 1)
    if f == 'pos':
        return P[:, 1].copy()
    if f == 'poscol':
        return P[:, [1]]
    return P


@sub('C11', 'forms', forms_case, quick=500, big=31, thorough=6000,
     rule='crisp quantifiers: predictions given as a matrix, as labels, as a column of labels, and (two classes) as positive '
          'probabilities, for training and test in any combination, give one estimate; non-trivial when the forms are not '
          'both matrices')
def forms(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    L = np.unique(y)
    fs = [c['train_form'], c['test_form']]
    if len(L) > 2:
        fs = ['matrix' if f.startswith('pos') else f for f in fs]
    elif (P[:, 1] == 0.5).any() or (T[:, 1] == 0.5).any():
        return None          # the first most probable class wins in a matrix, the positive one in a vector
    want = zoo.fit(c['q'], None, y, P).predict(None, predictions_test=T)
    q = zoo.build(c['q'])
    q.fit(None, y, predictions_train=form(P, L, fs[0]))
    got = q.predict(None, predictions_test=form(T, L, fs[1]))
    close(got, want, 1e-12, '%s with predictions as %s' % (zoo.label(c['q']), fs))
    return '%s %s' % (c['q'][0], fs) if fs != ['matrix', 'matrix'] else None


REAL = {'lr': lambda: LogisticRegression(), 'nb': lambda: GaussianNB(), 'tree': lambda: DecisionTreeClassifier(
    min_samples_leaf=2, random_state=0)}


@st.composite
def real_case(draw):
    ts = draw(train_spec(2, 4, 4, 12))
    k = ts['k']
    return dict(ts=ts, q=draw(zoo.y_spec(k, nested=False)), est=draw(st.sampled_from(sorted(REAL))),
                est2=draw(st.sampled_from(sorted(REAL))), kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(k)),
                seed=draw(SEED))


@sub('C11', 'real', real_case, quick=400, big=25, thorough=5000,
     rule='scikit-learn classifiers left to be fitted by the quantifier (one for training and another for testing) against '
          'the predictions of copies fitted by hand; cases where tied probabilities hide the decision of a crisp classifier '
          'are trivial')
def real(c):
    X, y = build_train(c['ts'], c['kind'])
    B, _ = build_bag(c['ts'], c['bag'], c['seed'])
    a, b = REAL[c['est']]().fit(X, y), REAL[c['est2']]().fit(X, y)
    crisp = c['q'][0] in CRISP
    if crisp:
        P, T = a.predict(X), b.predict(B)
    else:
        P, T = a.predict_proba(X), b.predict_proba(B)
    ref = zoo.build(c['q'])
    ref.fit(None, y, predictions_train=P)
    want = ask(lambda: ref.predict(None, predictions_test=T))
    q = zoo.equip(c['q'], REAL[c['est']](), REAL[c['est2']]())
    q.fit(X, y)
    same(ask(lambda: q.predict(B)), want, '%s with %s and %s' % (zoo.label(c['q']), c['est'], c['est2']))
    # an estimator only for the test
    if 'estimator_train' in q.get_params(deep=False):
        q = zoo.equip(c['q'], None, REAL[c['est2']]())
        q.fit(X, y, predictions_train=P)
        same(ask(lambda: q.predict(B)), want, '%s with predictions and %s' % (zoo.label(c['q']), c['est2']))
        q = zoo.equip(c['q'], REAL[c['est']](), None)
        q.fit(X, y)
        same(ask(lambda: q.predict(None, predictions_test=T)), want, '%s with %s and predictions' % (zoo.label(c['q']), c['est']))
    return zoo.label(c['q'])
