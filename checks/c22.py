"""C22 ensembles of quantifiers and of classifiers."""
import numpy as np
from hypothesis import strategies as st
from joblib import parallel_backend
from scipy.spatial.distance import cdist

from pbt import oracles as O, zoo
from pbt.core import sub
from pbt.gen import (upto, more, ANY_LABELS, OFFSETS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels,
                     pred_spec, train_spec, valid_prevalences)
from pbt.stubs import RecX, RecY, Scripted
from quantificationlib.bag_generator import PriorShift_BagGenerator
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers

STRATEGIES = ['mean', 'median', 'prevalence_similarity', 'distribution_similarity', 'all']


def base(spec):
    if spec[0] in ('RecY', 'RecX'):
        return (RecY if spec[0] == 'RecY' else RecX)(grid=spec[1]['grid'])
    return zoo.build(spec)


def rec(name):
    return st.sampled_from([0, 0, 1, 2, 4]).map(lambda g: [name, dict(grid=g)])


@st.composite
def ensemble_params(draw):
    return dict(n=draw(st.integers(1, more(7, 15))), strategy=draw(st.sampled_from(STRATEGIES)),
                share=draw(st.sampled_from([None, 0.01, 0.2, 0.34, 0.5, 0.75, 1.0])), bins=draw(st.sampled_from([1, 2, 5, 16, 100])),
                bin_strategy=draw(st.sampled_from(['equal_width', 'equal_count', 'normal'])),
                df=draw(st.sampled_from(['PDF', 'CDF'])), metric=draw(st.sampled_from(['euclidean', 'cityblock', 'chebyshev', 'sqeuclidean'])),
                bags=draw(st.sampled_from(['generator', 'explicit'])), bseed=draw(st.integers(0, 2 ** 31 - 1)),
                size=draw(st.integers(more(8, 12), upto(40))))


def ensemble(c, b, **kw):
    e = c['e']
    if e['share'] is not None:
        kw['percentage_of_selected_models'] = e['share']
    k = (c.get('ts') or c['ps'])['k']
    g = PriorShift_BagGenerator(n_bags=3, bag_size=e['size'], min_prevalence=min(0.15, 0.6 / k), random_state=e['bseed'])
    return EoQ(base_quantifier=b, n_quantifiers=e['n'], bag_generator=g, combination_strategy=e['strategy'], n_bins=e['bins'],
               bin_strategy=e['bin_strategy'], distribution_function=e['df'], distance_bags=e['metric'], **kw)


def draw_bags(c, y, k):
    """Bags with every class: those of the generator, or others of our own."""
    e = c['e']
    if e['bags'] == 'generator':
        return PriorShift_BagGenerator(n_bags=e['n'], bag_size=e['size'], min_prevalence=min(0.15, 0.6 / k),
                                       random_state=e['bseed']).generate_bags(None, y)
    r = np.random.RandomState(e['bseed'])
    first = np.array([r.choice(np.where(y == v)[0], e['n']) for v in np.unique(y)])
    idx = np.vstack([first, r.randint(0, len(y), (e['size'], e['n']))])
    return np.array([[np.mean(y[idx[:, i]] == v) for i in range(e['n'])] for v in np.unique(y)]), idx


class Undecided(Exception):
    pass


def nearest(d, n, scale=1.0):
    """The n smallest; undecided when the limit falls in a tie."""
    o = np.argsort(d, kind='stable')
    if n < len(d) and d[o[n]] - d[o[n - 1]] <= 1e-9 * max(scale, 1e-300):
        raise Undecided()
    return o[:n]


def histograms(c, columns, y, bags):
    """Representation of each bag: columns (n, d) of the training set, list of arrays of examples."""
    e = c['e']
    E = []
    for j in range(columns.shape[1]):
        x = columns[:, j]
        if not e['bin_strategy'].startswith('equal') and not O.spread(x, y, e['bin_strategy']):
            raise Undecided()
        cut = O.edges(x, y, e['bins'], e['bin_strategy'])
        if e['bin_strategy'] != 'equal_count' and any(O.near_edge(B[:, j], cut) for B in [columns] + bags):
            raise Undecided()
        E.append(cut)
    out = []
    for B in bags:
        h = [O.hist(B[:, j], E[j]) for j in range(len(E))]
        out.append(np.concatenate([np.cumsum(v) if e['df'] == 'CDF' else v for v in h]))
    return np.array(out)


def combine(c, V, D):
    """Answers of each strategy, None where a tie decides. V (n, k) estimates, D() distances of the bags."""
    e = c['e']
    n = max(1, round(e['n'] * (0.5 if e['share'] is None else e['share'])))
    out = {'mean': V.mean(axis=0)}
    m = np.median(V, axis=0)
    out['median'] = m / m.sum() if m.sum() > 0 else None
    for name, dist in (('prevalence_similarity', lambda: np.abs(V - V.mean(axis=0)).mean(axis=1)), ('distribution_similarity', D)):
        try:
            d = dist()
            v = V[nearest(d, n, np.max(d))].mean(axis=0)
            out[name] = v / v.sum()
        except Undecided:
            out[name] = None
    out['all'] = None if any(v is None for v in out.values()) else sum(out.values()) / 4
    return out


def judge(c, got, V, D, k, msg):
    e = c['e']
    want = combine(c, V, D)
    if e['strategy'] == 'all':
        check(isinstance(got, dict) and set(got) == set(STRATEGIES), '%s: %s', msg, got)
    else:
        got = {e['strategy']: got}
    shown = False
    for name, v in got.items():
        valid_prevalences(np.asarray(v), k, '%s, %s' % (msg, name), 1e-5)
        if want[name] is not None:
            close(v, want[name], 1e-6, '%s, %s of %d' % (msg, name, e['n']))
            shown = True
    return shown and e['n'] > 1 and '%s %s' % (zoo.label(c['q']), e['strategy'])


def ask(f):
    try:
        return f()
    except ValueError as e:
        if 'infinite minima' in str(e):
            return None
        raise


@st.composite
def feature_cases(draw):
    ts = draw(train_spec(2, 4, 2, 12))
    k = ts['k']
    ts['offset'] = draw(st.sampled_from(OFFSETS))
    return dict(ts=ts, e=draw(ensemble_params()), kind=draw(st.sampled_from(ANY_LABELS)),
                q=draw(st.one_of(rec('RecX'), rec('RecX'), zoo.x_spec(k, names=['DFX', 'HDX', 'EDX', 'PWKQuantifier'], nested=False))),
                bags=draw(st.lists(st.tuples(bag_counts(k, 0, 10), SEED), min_size=1, max_size=3)), far=draw(st.booleans()),
                twice=draw(st.booleans()))


@sub('C22', 'features', feature_cases, quick=700, big=43,
     rule='ensembles of quantifiers that work on the features x strategies x share of models x representation and distance of the '
          'bags x bags (generated or given); oracle: members fitted here on each bag, histograms counted example by example, '
          'documented selection and combination; ties at the limit of the selection are not decided; non-trivial with two '
          'or more members')
def features(c):
    X, y = build_train(c['ts'], c['kind'])
    k = c['ts']['k']
    b = base(c['q'])
    q = ensemble(c, b)
    prev, idx = draw_bags(c, y, k)
    if c['twice']:
        q.fit(X[::-1] * 2, y[::-1])
    kw = {} if c['e']['bags'] == 'generator' else dict(prevalences=prev, indexes=idx)
    X0, y0 = X.copy(), y.copy()
    check(q.fit(X, y, **kw) is q, 'fit does not return the ensemble')
    check(np.array_equal(X, X0) and np.array_equal(y, y0), 'fit modified the data')
    check(getattr(b, 'classes_', None) is None, 'the base quantifier of the user was fitted')
    check(len(q.quantifiers_) == c['e']['n'], '%d members', len(q.quantifiers_))
    close(q.prevalences_, prev, 1e-12, 'prevalences of the bags')
    check(np.array_equal(q.indexes_, idx), 'the examples of the bags are not those of the generator')
    own = [base(c['q']).fit(X[i], y[i]) for i in idx.T]
    shown = False
    for cnt, s in c['bags']:
        T = build_bag(c['ts'], cnt, s)[0] * (7 if c['far'] else 1)
        V = ask(lambda: np.array([o.predict(T) for o in own]))
        got = ask(lambda: q.predict(T))
        if V is None or got is None:
            check(V is None and got is None, 'the members answer %s, the ensemble %s', V, got)
            continue

        def D():
            H = histograms(c, X, y, [X[i] for i in idx.T] + [T])
            return cdist(H[-1:], H[:-1], metric=c['e']['metric'])[0]
        shown |= bool(judge(c, got, V, D, k, 'ensemble of %s' % zoo.label(c['q'])))
    return shown and '%s %s' % (zoo.label(c['q']), c['e']['strategy'])


@st.composite
def pred_cases(draw):
    ps = draw(pred_spec(2, 4, 2, 12))
    k = ps['k']
    return dict(ps=ps, e=draw(ensemble_params()), kind=draw(st.sampled_from(ANY_LABELS)),
                q=draw(st.one_of(rec('RecY'), rec('RecY'), zoo.y_spec(k, names=['CC', 'PCC', 'AC', 'PAC', 'DFy', 'HDy', 'EDy', 'EM'], nested=False))),
                shape=draw(st.sampled_from(['one', 'one', 'repeated', 'members', 'members'])), reps=draw(st.integers(2, 3)),
                bags=draw(st.lists(st.tuples(bag_counts(k, 0, 10), SEED), min_size=1, max_size=2)))


@sub('C22', 'predictions', pred_cases, quick=700, big=43,
     rule='the same with explicit predictions: one per example, repeated blocks, or one per example and member')
def predictions(c):
    P, y = build_preds(c['ps'], c['kind'])
    k, n = c['ps']['k'], c['e']['n']
    r = np.random.RandomState(c['e']['bseed'])
    many = c['shape'] == 'members'
    reps = c['reps'] if c['shape'] == 'repeated' else 1
    if reps > 1:
        P = np.vstack([P] + [build_preds(dict(c['ps'], seed=(c['ps']['seed'] + j) % 2 ** 32, order=True), c['kind'])[0][
            np.argsort(np.argsort([list(labels(c['kind'], k)).index(v) for v in y], kind='stable'))] for j in range(1, reps)])
    if many:
        P = np.stack([np.abs(P + r.uniform(0, 0.3, P.shape)) for _ in range(n)], axis=1)
        P = P / P.sum(axis=2, keepdims=True)
    prev, idx = draw_bags(c, y, k)
    q = ensemble(c, base(c['q']))
    kw = {} if c['e']['bags'] == 'generator' else dict(prevalences=prev, indexes=idx)
    P0 = P.copy()
    q.fit(np.zeros((len(y), 1)), y, predictions_train=P, **kw)
    check(np.array_equal(P, P0), 'fit modified the predictions')
    ext = np.vstack([idx.astype(int) + j * len(y) for j in range(reps)])
    y_ext = np.tile(y, reps)
    own = [base(c['q']).fit(None, y_ext[i], predictions_train=P[i, j] if many else P[i]) for j, i in enumerate(ext.T)]
    shown = False
    for cnt, s in c['bags']:
        T = bag_preds(c['ps'], cnt, s)[0]
        if many:
            T = np.stack([np.abs(T + r.uniform(0, 0.3, T.shape)) for _ in range(n)], axis=1)
            T = T / T.sum(axis=2, keepdims=True)
        V = ask(lambda: np.array([o.predict(None, predictions_test=T[:, j] if many else T) for j, o in enumerate(own)]))
        got = ask(lambda: q.predict(None, predictions_test=T))
        if V is None or got is None:
            check(V is None and got is None, 'the members answer %s, the ensemble %s', V, got)
            continue

        def D():
            A, B = (P.mean(axis=1), T.mean(axis=1)) if many else (P, T)
            cols = slice(0, 1 if k == 2 else k)
            H = histograms(c, A[:, cols], y_ext, [A[i][:, cols] for i in ext.T] + [B[:, cols]])
            return cdist(H[-1:], H[:-1], metric=c['e']['metric'])[0]
        shown |= bool(judge(c, got, V, D, k, 'ensemble of %s, %s' % (zoo.label(c['q']), c['shape'])))
    return shown and '%s %s %s' % (zoo.label(c['q']), c['e']['strategy'], c['shape'])


@st.composite
def model_cases(draw):
    ts = draw(train_spec(2, 4, 2, 12))
    k = ts['k']
    e = draw(ensemble_params())
    return dict(ts=ts, e=e, kind=draw(st.sampled_from(ANY_LABELS)), gain=draw(st.sampled_from([0.3, 2.0])),
                q=draw(st.one_of(rec('RecY'), zoo.y_spec(k, names=['CC', 'PCC', 'AC', 'PAC', 'DFy', 'EM'], nested=False))),
                train=draw(st.sampled_from(['ensemble', 'ensemble', 'plain'])), test=draw(st.sampled_from(['ensemble', 'ensemble', 'plain', 'same'])),
                before=draw(st.booleans()), bag=draw(bag_counts(k, 0, 8)), seed=draw(SEED))


@sub('C22', 'classifiers', model_cases, quick=500, big=31,
     rule='the same with ensembles of classifiers (one per bag) or one classifier, fitted before or not, crisp and probabilistic '
          'base quantifiers; oracle: models trained here on each bag; each model is trained once')
def classifiers(c):
    X, y = build_train(c['ts'], c['kind'])
    X = X / c['ts']['scale']
    k, n = c['ts']['k'], c['e']['n']
    T = build_bag(c['ts'], c['bag'], c['seed'])[0] / c['ts']['scale']
    prev, idx = draw_bags(c, y, k)

    def make(kind, gain):
        return EnsembleOfClassifiers(base_estimator=Scripted(gain=gain)) if kind == 'ensemble' else Scripted(gain=gain)

    def own_models(kind, gain):
        if kind == 'ensemble':
            return [Scripted(gain=gain).fit(X[i], y[i]) for i in idx.T]
        return [Scripted(gain=gain).fit(X, y)] * n
    m_train = own_models(c['train'], c['gain'])
    m_test = m_train if c['test'] == 'same' else own_models(c['test'], c['gain'] * 1.5)
    e_train = make(c['train'], c['gain'])
    e_test = e_train if c['test'] == 'same' else make(c['test'], c['gain'] * 1.5)
    if c['before']:
        for kind, e in {id(e_train): (c['train'], e_train), id(e_test): (c['test'] if c['test'] != 'same' else c['train'], e_test)}.values():
            e.fit(X, y, idx) if kind == 'ensemble' else e.fit(X, y)
    q = ensemble(c, base(c['q']), ensemble_estimator_train=e_train, ensemble_estimator_test=e_test)
    kw = {} if c['e']['bags'] == 'generator' else dict(prevalences=prev, indexes=idx)
    Scripted.LOG.clear()
    try:
        q.fit(X, y, **kw)
    finally:
        log = list(Scripted.LOG)
        Scripted.LOG.clear()
    if c['before']:
        check(not log, '%d models were trained though all were', len(log))
    crisp = c['q'][0] in zoo.CRISP
    A = [m.predict(X) if crisp else m.predict_proba(X) for m in m_train]
    B = [m.predict(T) if crisp else m.predict_proba(T) for m in m_test]
    own = [base(c['q']).fit(None, y[i], predictions_train=A[j][i]) for j, i in enumerate(idx.T)]
    V = ask(lambda: np.array([o.predict(None, predictions_test=B[j]) for j, o in enumerate(own)]))
    if crisp and c['e']['strategy'] in ('distribution_similarity', 'all'):
        try:
            q.predict(T)
        except ValueError:
            return None
        check(False, 'similarity of distributions with crisp predictions is not refused')
    got = ask(lambda: q.predict(T))
    check(not Scripted.LOG, 'predict trains models')
    if V is None or got is None:
        check(V is None and got is None, 'the members answer %s, the ensemble %s', V, got)
        return None

    def D():
        if crisp:
            raise Undecided()
        cols = slice(0, 1 if k == 2 else k)
        P, S = np.mean(A, axis=0)[:, cols], np.mean(B, axis=0)[:, cols]
        H = histograms(c, P, y, [P[i] for i in idx.T] + [S])
        return cdist(H[-1:], H[:-1], metric=c['e']['metric'])[0]
    s = judge(c, got, V, D, k, 'ensemble of %s, %s/%s' % (zoo.label(c['q']), c['train'], c['test']))
    return s and '%s %s %s/%s' % (zoo.label(c['q']), c['e']['strategy'], c['train'], c['test'])


@st.composite
def stack_cases(draw):
    ts = draw(train_spec(2, 4, 1, 10))
    return dict(ts=ts, n=draw(st.integers(1, more(6, 20))), size=draw(st.integers(1, upto(20))), kind=draw(st.sampled_from(ANY_LABELS)),
                jobs=draw(st.sampled_from([None] * 6 + [1, 2])), seed=draw(SEED), bag=draw(st.integers(1, upto(5))), gain=draw(st.sampled_from([0.3, 2.0])))


@sub('C22', 'stacked_models', stack_cases, quick=500, big=31,
     rule='ensembles of classifiers on any bags with every class: one model per bag, trained on it alone, predictions member by '
          'member; non-trivial with two or more models')
def stacked_models(c):
    X, y = build_train(c['ts'], c['kind'])
    X = X / c['ts']['scale']
    k = c['ts']['k']
    r = np.random.RandomState(c['seed'])
    C = labels(c['kind'], k)
    first = np.array([r.choice(np.where(y == v)[0], c['n']) for v in C])
    idx = np.vstack([first, r.randint(0, len(y), (c['size'], c['n']))]).astype(r.choice(['uint32', 'int64']))
    T = build_bag(c['ts'], [c['bag']] * k, c['seed'])[0] / c['ts']['scale']
    b = Scripted(gain=c['gain'])
    e = EnsembleOfClassifiers(base_estimator=b, n_jobs=c['jobs'])
    Scripted.LOG.clear()
    with parallel_backend('threading', n_jobs=1):
        check(e.fit(X, y, idx) is e, 'fit does not return the ensemble')
    log = list(Scripted.LOG)
    check(not hasattr(b, 'classes_'), 'the base estimator of the user was fitted')
    check(len(log) == c['n'], '%d models for %d bags', len(log), c['n'])
    for j, i in enumerate(idx.T):       # with several threads, in any order
        check(any(np.array_equal(A, X[i]) and np.array_equal(z, y[i]) for A, z in (log if c['jobs'] == 2 else log[j:j + 1])),
              'no model was trained on bag %d', j)
    own = [Scripted(gain=c['gain']).fit(X[i], y[i]) for i in idx.T]
    for D in (T, X, T[:1]):
        got = np.asarray(e.predict_proba(D))
        check(got.shape == (len(D), c['n'], k), 'probabilities have shape %s', got.shape)
        close(got, np.stack([m.predict_proba(D) for m in own], axis=1), 1e-9, 'probabilities of the models')
        crisp = np.asarray(e.predict(D))
        check(np.array_equal(crisp, np.column_stack([m.predict(D) for m in own])), 'classes of the models')
    return c['n'] > 1 and '%d %s' % (c['n'], c['kind'])
