"""C08 estimates do not depend on what was computed before."""
import json

import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB
from sklearn.tree import DecisionTreeClassifier

from pbt import zoo
from pbt.core import sub
from pbt.gen import (ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, pred_spec,
                     train_spec)
from pbt.stubs import Carrier

# The same computation on the same numbers; only the starting point of an iterative solver may differ.
TOL = 1e-6


class Data:
    """Training set and bags of a case, for quantifiers on predictions (ps) or on features (ts)."""

    def __init__(self, d, kind):
        self.X = self.P = None
        if 'ps' in d:
            self.P, self.y = build_preds(d['ps'], kind)
            self.k = d['ps']['k']
            self.bags = [bag_preds(d['ps'], cnt, s)[0] for cnt, s in d['bags']]
        else:
            self.X, self.y = build_train(d['ts'], kind)
            self.k = d['ts']['k']
            self.bags = [build_bag(d['ts'], cnt, s)[0] for cnt, s in d['bags']]

    def fit(self, spec, q=None):
        q = zoo.build(spec) if q is None else q
        return zoo.fit_on(q, spec, self.X, self.y, self.P)

    def ask(self, q, spec, i, bag=None):
        """The estimate, or the text of the documented refusal of a flat loss."""
        bag = self.bags[i] if bag is None else bag
        try:
            p = zoo.predict(q, spec, bag if self.P is None else None, None if self.P is None else bag)
        except ValueError as e:
            if 'infinite minima' in str(e):
                return 'flat'
            raise
        return np.array(p, dtype=float)

    def arrays(self):
        return [a for a in [self.X, self.P, self.y] + self.bags if a is not None]


def same(a, b, msg):
    if isinstance(a, str) or isinstance(b, str):
        check(isinstance(a, str) and isinstance(b, str), '%s: %s and %s', msg, a, b)
        return
    close(a, b, TOL, msg)


@st.composite
def data_spec(draw, y_based, k_min=2, k_max=4, n_bags=(1, 4)):
    if y_based:
        ps = draw(pred_spec(k_min, k_max, 2, 12))
        return dict(ps=ps, bags=draw(st.lists(st.tuples(bag_counts(ps['k']), SEED), min_size=n_bags[0], max_size=n_bags[1])))
    ts = draw(train_spec(k_min, k_max, 6, 12))
    return dict(ts=ts, bags=draw(st.lists(st.tuples(bag_counts(ts['k']), SEED), min_size=n_bags[0], max_size=n_bags[1])))


@st.composite
def case(draw, n_bags=(2, 4)):
    yb = draw(st.sampled_from([True, True, False]))
    d = draw(data_spec(yb, n_bags=n_bags))
    k = (d.get('ps') or d.get('ts'))['k']
    q = draw(zoo.y_spec(k, glm=False) if yb else zoo.x_spec(k))
    n = len(d['bags'])
    return dict(d=d, q=q, kind=draw(st.sampled_from(ANY_LABELS)), noise=draw(st.integers(0, 99)),
                ops=draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=6)), refill=draw(st.booleans()), seed=draw(SEED))


@sub('C08', 'sequence', case, quick=500, big=31, thorough=8000,
     rule='a sequence of predictions of several bags (repeated, in any order) by one fitted quantifier; each answer must '
          'be the one of a freshly built and fitted quantifier that only sees that bag, with the global random generator '
          'in another state, also when the array of the bag is one that was predicted before with other content; no array '
          'given may change; non-trivial when two different bags are asked')
def sequence(c):
    D = Data(c['d'], c['kind'])
    before = [a.copy() for a in D.arrays()]
    q = D.fit(c['q'])
    fresh = {}
    for n, i in enumerate(c['ops']):
        if i not in fresh:
            np.random.seed(c['noise'])
            np.random.rand(c['noise'] % 7)
            fresh[i] = D.ask(D.fit(c['q']), c['q'], i)
            check(all(np.array_equal(a, b) for a, b in zip(before, D.arrays())), '%s modified its inputs', zoo.label(c['q']))
        bag = None
        if c.get('refill'):      # one array object, first with other rows
            bag = D.bags[i][np.random.RandomState(c['seed']).randint(len(D.bags[i]), size=len(D.bags[i]))]
            D.ask(q, c['q'], i, bag)
            bag[:] = D.bags[i]
        got = D.ask(q, c['q'], i, bag)
        same(got, fresh[i], '%s: bag %d after %s' % (zoo.label(c['q']), i, c['ops'][:n]))
    check(all(np.array_equal(a, b) for a, b in zip(before, D.arrays())), '%s modified its inputs', zoo.label(c['q']))
    return zoo.label(c['q']) if len(set(c['ops'])) > 1 else None


@st.composite
def near_case(draw):
    yb = draw(st.sampled_from([True, True, True, False]))
    d = draw(data_spec(yb, n_bags=(1, 2)))
    k = (d.get('ps') or d.get('ts'))['k']
    q = draw(zoo.y_spec(k, glm=False, nested=False) if yb else zoo.x_spec(k))
    return dict(d=d, q=q, kind=draw(st.sampled_from(ANY_LABELS)), rows=draw(st.integers(50, 500)),
                steps=draw(st.lists(st.sampled_from(['drop', 'replace', 'add', 'nudge']), min_size=1, max_size=3)), seed=draw(SEED))


@sub('C08', 'near_bags', near_case, quick=200, thorough=3000,
     rule='a large bag, then others that differ from the one before in a single example (left out, added, replaced, its numbers '
          'changed by a thousandth): each answer is that of a freshly fitted quantifier; non-trivial when the answers differ')
def near_bags(c):
    D = Data(c['d'], c['kind'])
    r = np.random.RandomState(c['seed'])
    pool = np.vstack(D.bags)
    bag = pool[r.randint(len(pool), size=c['rows'])]
    q = D.fit(c['q'])
    got = [D.ask(q, c['q'], 0, bag)]
    for how in c['steps']:
        i, row = r.randint(len(bag)), pool[[r.randint(len(pool))]]
        if how == 'drop':
            bag = np.delete(bag, i, axis=0)
        elif how == 'add':
            bag = np.vstack([bag, row])
        else:
            bag = bag.copy()
            bag[i] = row[0] if how == 'replace' else 0.999 * bag[i] + 0.001 * row[0]
        got.append(D.ask(q, c['q'], 0, bag))
        same(got[-1], D.ask(D.fit(c['q']), c['q'], 0, bag), '%s: almost the same bag (%s)' % (zoo.label(c['q']), how))
    return zoo.label(c['q']) if len({str(np.round(g, 7) if not isinstance(g, str) else g) for g in got}) > 1 else None


@st.composite
def refit_case(draw):
    yb = draw(st.sampled_from([True, True, False]))
    a = draw(data_spec(yb, n_bags=(1, 2)))
    k = (a.get('ps') or a.get('ts'))['k']
    q = draw(zoo.y_spec(k) if yb else zoo.x_spec(k))
    # the second data set may have another number of classes when the method admits it
    ks = (k, k)
    if q[0] not in ('QUANTy', 'SORDy', 'DeBias', 'OVR', 'FH', 'PDFOrdinaly', 'ACOrdinal', 'EoQ') and \
            q[1].get('distance') not in zoo.DISTANCES and q[1].get('bin_strategy') != 'binormal':
        ks = (2, 4)
    b = draw(data_spec(yb, ks[0], ks[1], n_bags=(1, 2)))
    return dict(a=a, b=b, q=q, kind=draw(st.sampled_from(ANY_LABELS)), kind2=draw(st.sampled_from(ANY_LABELS)),
                fits=draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)), ask=draw(st.sampled_from([True, True, True, False])))


def other_seed(d):
    d = json.loads(json.dumps(d))
    for part in ('ps', 'ts'):
        if part in d:
            d[part]['seed'] = (d[part]['seed'] + 1) % 10 ** 6
    return d


@sub('C08', 'refit', refit_case, quick=600, big=37, thorough=6000,
     rule='fit on one data set (and predict), then fit two to five times on others in any order (other classes, sizes and labels; and '
          'other data of the same classes and sizes): each time the estimates are those of a fresh object')
def refit(c):
    A, B = Data(c['a'], c['kind']), Data(c['b'], c['kind2'])
    sets = [A, B, Data(other_seed(c['a']), c['kind']), Data(other_seed(c['b']), c['kind2'])]
    q = A.fit(c['q'])
    if c['ask']:
        A.ask(q, c['q'], 0)
    fresh = {}
    for n, w in enumerate([1] + c['fits']):
        D = sets[w]
        D.fit(c['q'], q)
        if w not in fresh:
            f = D.fit(c['q'])
            fresh[w] = [D.ask(f, c['q'], i) for i in range(len(D.bags))]
        for i in range(len(D.bags) if c['ask'] or n == len(c['fits']) else 0):
            same(D.ask(q, c['q'], i), fresh[w][i], '%s fitted again on %s' % (zoo.label(c['q']), ([1] + c['fits'])[:n + 1]))
    return '%s%s' % (zoo.label(c['q']), ', other number of classes' if A.k != B.k else '')


class Counting(Carrier):
    """Carrier that notes the calls."""


@st.composite
def shared_case(draw):
    ps = draw(pred_spec(2, 4, 2, 12))
    k = ps['k']
    n = draw(st.integers(2, 4))
    return dict(ps=ps, qs=[draw(zoo.y_spec(k, nested=False)) for _ in range(n)], kind=draw(st.sampled_from(ANY_LABELS)),
                bag=draw(bag_counts(k)), seed=draw(SEED), fitted=draw(st.booleans()),
                order=draw(st.permutations(list(range(n)))))


@sub('C08', 'shared_estimators', shared_case, quick=400, big=25, thorough=6000,
     rule='2..4 quantifiers of any kind share one classifier (fitted or not): it is fitted at most once, and every '
          'estimate is that of a quantifier with a classifier of its own')
def shared_estimators(c):
    P, y = build_preds(c['ps'], c['kind'])
    T, _ = bag_preds(c['ps'], c['bag'], c['seed'])
    e = Counting()
    if c['fitted']:
        e.fit(P, y)
    qs = [zoo.equip(s, e, e) for s in c['qs']]

    def ask(q):
        try:
            return np.array(q.predict(T), dtype=float)
        except ValueError as err:
            if 'infinite minima' in str(err):
                return 'flat'
            raise
    for i in c['order']:
        qs[i].fit(P, y)
    check(e.n_fits_ == 1, 'the shared classifier was fitted %s times', e.n_fits_)
    got = [ask(q) for q in qs]
    for s, g in zip(c['qs'], got):
        own = zoo.equip(s, Counting(), Counting())
        own.fit(P, y)
        same(g, ask(own), '%s with a shared classifier' % zoo.label(s))
    check(e.n_fits_ == 1, 'the shared classifier was fitted %s times', e.n_fits_)
    return '%d quantifiers' % len(qs)


REAL = {'lr': lambda: LogisticRegression(), 'nb': lambda: GaussianNB(), 'tree': lambda: DecisionTreeClassifier(random_state=0)}


@st.composite
def interleave_case(draw):
    ts = draw(train_spec(2, 4, 4, 12))
    k = ts['k']
    return dict(ts=ts, qs=[draw(zoo.y_spec(k, nested=False)), draw(zoo.y_spec(k, nested=False))],
                est=draw(st.sampled_from(sorted(REAL))), kind=draw(st.sampled_from(ANY_LABELS)),
                bags=draw(st.lists(st.tuples(bag_counts(k), SEED), min_size=2, max_size=3)),
                ops=draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)), min_size=2, max_size=6)))


@sub('C08', 'interleaved', interleave_case, quick=250, big=16, thorough=4000,
     rule='two quantifiers with a shared, already fitted scikit-learn classifier answer bags in an interleaved order: the '
          'answers equal those from the precomputed predictions of the classifier, which is not retrained')
def interleaved(c):
    X, y = build_train(c['ts'], c['kind'])
    e = REAL[c['est']]().fit(X, y)
    P = e.predict_proba(X)
    qs = []
    for s in c['qs']:
        q = zoo.equip(s, e, e)
        q.fit(X, y)
        qs.append(q)
    check(np.array_equal(e.predict_proba(X), P), 'an already fitted classifier was trained again')
    bags = [build_bag(c['ts'], cnt, sd)[0] for cnt, sd in c['bags']]
    if any(s[0] in zoo.CRISP for s in c['qs']) and \
            any((e.predict(Z) != e.classes_[e.predict_proba(Z).argmax(axis=1)]).any() for Z in [X] + bags):
        return None       # tied or saturated probabilities do not tell the decision of this classifier

    def ask(f):
        try:
            return np.array(f(), dtype=float)
        except ValueError as err:
            if 'infinite minima' in str(err):
                return 'flat'
            raise
    for qi, bi in c['ops']:
        s = c['qs'][qi]
        B = bags[bi]
        got = ask(lambda: qs[qi].predict(B))
        ref = zoo.fit(s, None, y, P)
        want = ask(lambda: zoo.predict(ref, s, None, e.predict_proba(B)))
        same(got, want, '%s interleaved' % zoo.label(s))
    return c['est'] if len({b for _, b in c['ops']}) > 1 else None
