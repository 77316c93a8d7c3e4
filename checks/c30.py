"""C30 fitted attributes describe the training set and the last bag as documented."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import rankdata
from sklearn.metrics.pairwise import euclidean_distances, manhattan_distances

from pbt import zoo
from pbt.core import sub
from pbt.gen import (ANY_LABELS, SEED, bag_counts, bag_preds, build_bag, build_preds, build_train, check, close, labels, pred_spec,
                     train_spec)
from pbt.losses import quantile_slices

TOL = 1e-9


def rates(C, idx, got):
    """Share of the examples of each class (rows) assigned to each class (columns)."""
    k = len(C)
    M = np.zeros((k, k))
    for i, g in zip(idx, got):
        M[i, g] += 1
    return M / M.sum(axis=1, keepdims=True)


def crisp(P):
    return [max(range(len(r)), key=lambda j: (r[j], -j)) for r in P.tolist()]


def cumulated(M):
    out = np.array(M, dtype=float)
    for i in range(1, len(out)):
        out[i] = out[i] + out[i - 1]
    return out


def average_distances(groups, metric):
    return np.array([[np.mean(metric(a, b)) for b in groups] for a in groups])


def pairs(values, marks):
    return sorted(zip([float(v) for v in np.ravel(values)], [str(m) for m in np.ravel(marks)]))


@st.composite
def y_cases(draw):
    ps = draw(pred_spec(2, 5, 1, 12))
    k = ps['k']
    names = ['CC', 'PCC', 'AC', 'PAC', 'DFy', 'HDy', 'MMy', 'FriedmanME', 'FriedmanME', 'EDy', 'CvMy', 'EM'] + \
        (['QUANTy', 'SORDy', 'DeBias'] if k == 2 else ['ACOrdinal'])
    name = draw(st.sampled_from(names))
    return dict(ps=ps, q=draw(zoo.y_spec(k, names=[name])), kind=draw(st.sampled_from(ANY_LABELS)), blocks=draw(st.integers(1, 3)),
                bags=draw(st.lists(st.tuples(bag_counts(k), SEED), min_size=1, max_size=3)))


def fitted(q, name, P, y, C, idx, Y, I):
    """The attributes that describe the training set."""
    k = len(C)
    n = len(y)
    prevs = np.array([np.sum(idx == i) / n for i in range(k)])
    check(np.array_equal(q.classes_, C), '%s: classes_ is %s instead of %s', name, q.classes_, C)
    if name in ('CC', 'PCC'):
        return
    check(np.array_equal(np.asarray(q.y_ext_), Y), '%s: y_ext_ is not the labels of the predictions: %s', name, q.y_ext_)
    if name in zoo.CRISP:
        check(np.array_equal(np.asarray(q.predictions_train_), C[crisp(P)]), '%s: predictions_train_ is not the predicted classes', name)
    else:
        check(np.array_equal(np.asarray(q.predictions_train_), P), '%s: predictions_train_ is not the predictions given', name)
    if name in ('AC', 'ACOrdinal'):
        M = rates(C, I, crisp(P))
        cm = np.asarray(q.cm_, dtype=float)
        close(cm / cm.sum(axis=1, keepdims=True), M, TOL, name + ': cm_')
        if name == 'ACOrdinal':
            close(q.train_distrib_, cumulated(M.T), TOL, name + ': train_distrib_')
    elif name == 'PAC':
        close(q.cm_, np.array([P[I == i].mean(axis=0) for i in range(k)]), TOL, 'PAC: cm_')
    elif name == 'EM':
        close(q.prevalences_train_, prevs, TOL, 'EM: prevalences_train_')
    elif name == 'DeBias':
        close(q.train_prevs_, prevs, TOL, 'DeBias: train_prevs_')
        close(q.Vt_, np.mean((P[:, 1] - prevs[1]) ** 2) / (prevs[1] * prevs[0]), TOL, 'DeBias: Vt_')
    elif name == 'FriedmanME':
        close(q.train_prevs_, prevs, TOL, 'FriedmanME: train_prevs_')
        # probabilities equal to the share up to rounding are not decided
        if np.abs(P - prevs).min() > 1e-12:
            want = np.array([[np.mean(P[I == c, j] >= prevs[j]) for c in range(k)] for j in range(k)])
            close(q.train_distrib_, want, TOL, 'FriedmanME: train_distrib_')
    elif name in ('QUANTy', 'SORDy'):
        check(np.all(np.diff(q.train_distrib_) >= 0), '%s: train_distrib_ is not ascending', name)
        check(pairs(q.train_distrib_, q.train_labels_) == pairs(P[:, 1], Y), '%s: train_distrib_ and train_labels_ are not the training set', name)
    elif name == 'EDy':
        for i, c in enumerate(C):
            g = np.asarray(q.train_distrib_[c])
            check(np.array_equal(np.sort(g, axis=0), np.sort(P[I == i], axis=0)), 'EDy: train_distrib_ of class %s', c)
        close(np.ravel(q.train_n_cls_i_), [np.sum(I == i) for i in range(k)], 0, 'EDy: train_n_cls_i_')
        close(q.K_, average_distances([P[I == i] for i in range(k)], distance_of(q)), 1e-7, 'EDy: K_')
    elif name in ('DFy', 'HDy', 'MMy'):
        D = np.asarray(q.train_distrib_)
        check(D.shape[1] == k and D.min() >= 0, '%s: train_distrib_ has shape %s', name, D.shape)
        n_bins, pdf = q.n_bins, D
        if q.distribution_function == 'CDF':        # cumulated over all the descriptors
            pdf = np.diff(np.vstack([np.zeros((1, k)), D]), axis=0)
        blocks = pdf.reshape(-1, n_bins, k).sum(axis=1)
        close(blocks, np.ones(blocks.shape), 1e-7, name + ': sums of train_distrib_')


def distance_of(q):
    return q.distance if callable(q.distance) else manhattan_distances


def asked(q, name, P, T, C, I, p):
    """The attributes that describe the bag asked last."""
    k = len(C)
    if name in zoo.CRISP:
        check(np.array_equal(np.asarray(q.predictions_test_), C[crisp(T)]), '%s: predictions_test_ is not the predicted classes', name)
    else:
        check(np.array_equal(np.asarray(q.predictions_test_), T), '%s: predictions_test_ is not the predictions given', name)
    if name == 'ACOrdinal':
        share = np.bincount(crisp(T), minlength=k) / len(T)
        close(np.ravel(q.test_distrib_), np.cumsum(share), TOL, 'ACOrdinal: test_distrib_')
    elif name == 'FriedmanME' and np.abs(T - q.train_prevs_).min() > 1e-12:
        close(np.ravel(q.test_distrib_), (T >= q.train_prevs_).mean(axis=0), TOL, 'FriedmanME: test_distrib_')
    elif name == 'QUANTy':
        t = np.sort(T[:, 1])
        got = np.ravel(q.test_distrib_)
        check(len(got) == q.n_quantiles, 'QUANTy: test_distrib_ has %s values', len(got))
        close(got, quantile_slices(t, np.ones(len(t)), q.n_quantiles), 1e-3, 'QUANTy: test_distrib_')
    elif name == 'SORDy':
        close(np.ravel(q.union_distrib_), np.sort(np.r_[P[:, 1], T[:, 1]]), 0, 'SORDy: union_distrib_')
    elif name == 'CvMy':
        R = np.column_stack([rankdata(col) for col in np.vstack([P, T]).T])
        close(q.test_distrib_, R[len(P):], TOL, 'CvMy: test_distrib_')
        for i, c in enumerate(C):
            close(np.sort(q.train_distrib_[c], axis=0), np.sort(R[:len(P)][I == i], axis=0), TOL, 'CvMy: train_distrib_ of class %s' % c)
        close(q.K_, average_distances([R[:len(P)][I == i] for i in range(k)], distance_of(q)), 1e-7 * len(R), 'CvMy: K_')
    elif name in ('DFy', 'HDy', 'MMy'):
        D = np.asarray(q.test_distrib_).reshape(-1, 1)
        check(len(D) == len(q.train_distrib_) and D.min() >= 0, '%s: test_distrib_ has shape %s', name, np.shape(q.test_distrib_))
        pdf = np.diff(np.vstack([[[0]], D]), axis=0) if q.distribution_function == 'CDF' else D
        blocks = pdf.reshape(-1, q.n_bins).sum(axis=1)
        close(blocks, np.ones(len(blocks)), 1e-7, name + ': sums of test_distrib_')
    M = getattr(q, 'mixtures_', None)
    if M is not None and name in ('DFy', 'HDy', 'MMy', 'FriedmanME'):
        a = np.linspace(0, 1, 101)[:, None]
        close(M, (1 - a) * q.train_distrib_[:, 0] + a * q.train_distrib_[:, 1], 1e-7, name + ': mixtures_')


@sub('C30', 'predictions', y_cases, quick=1500, big=93,
     rule='classifier-based quantifiers x 1 to 3 blocks of predictions x bags: classes_, y_ext_, predictions, confusion matrices, prevalences, '
          'representations, averages of distances and mixtures against their documented meaning, recomputed here, after fit and after each '
          'bag (the ones of the training set not changed by it); non-trivial with several bags or blocks')
def predictions(c):
    name = c['q'][0]
    parts = [build_preds(dict(c['ps'], seed=(c['ps']['seed'] + b) % 10 ** 6), c['kind']) for b in range(c['blocks'])]
    y = parts[0][1]
    C = labels(c['kind'], c['ps']['k'])
    idx = np.array([list(C).index(v) for v in y])
    order = [np.argsort([list(C).index(v) for v in b[1]], kind='stable') for b in parts]
    here = np.argsort(idx, kind='stable')
    blocks = []
    for (P, _), o in zip(parts, order):        # every block in the order of the labels of the first
        B = np.empty_like(P)
        B[here] = P[o]
        blocks.append(B)
    P = np.vstack(blocks)
    Y, I = np.tile(y, c['blocks']), np.tile(idx, c['blocks'])
    q = zoo.build(c['q'])
    zoo.fit_on(q, c['q'], None, y, P)
    if name == 'HDy' or name == 'MMy':
        check(q.distribution_function == ('PDF' if name == 'HDy' else 'CDF'), '%s uses %s', name, q.distribution_function)
    fitted(q, name, P, y, C, idx, Y, I)
    for cnt, s in c['bags']:
        T = bag_preds(c['ps'], cnt, s)[0]
        try:
            p = zoo.predict(q, c['q'], None, T)
        except ValueError as e:
            if 'infinite minima' in str(e):
                continue
            raise
        asked(q, name, P, T, C, I, p)
        fitted(q, name, P, y, C, idx, Y, I)
    return zoo.label(c['q']) if len(c['bags']) + c['blocks'] > 2 else None


@st.composite
def x_cases(draw):
    ts = draw(train_spec(2, 4, 3, 12))
    name = draw(st.sampled_from(['DFX', 'HDX', 'EDX', 'EDX', 'PWKQuantifier', 'REGX']))
    return dict(ts=ts, q=draw(zoo.x_spec(ts['k'], names=[name])), kind=draw(st.sampled_from(ANY_LABELS)), bag=draw(bag_counts(ts['k'])),
                seed=draw(SEED))


@sub('C30', 'features', x_cases, quick=700, big=43,
     rule='the same for quantifiers on features: classes, groups of examples and averages of their distances, confusion matrix of the '
          'neighbours, sums of the representations, training tables of the regressors; non-trivial with three or more classes')
def features(c):
    X, y = build_train(c['ts'], c['kind'])
    k = c['ts']['k']
    C = labels(c['kind'], k)
    idx = np.array([list(C).index(v) for v in y])
    T = build_bag(c['ts'], c['bag'], c['seed'])[0]
    q = zoo.build(c['q'])
    q.fit(X, y)
    name = c['q'][0]

    def look():
        if name == 'REGX':
            check(q.n_classes_ == k, 'REGX: n_classes_ is %s', q.n_classes_)
            D = np.asarray(q.dataX_)
            n_bags = q.bag_generator.n_bags
            check(D.shape == (n_bags, q.n_bins * X.shape[1]), 'REGX: dataX_ has shape %s', D.shape)
            close(D.reshape(n_bags, X.shape[1], q.n_bins).sum(axis=2), np.ones((n_bags, X.shape[1])), 1e-9, 'REGX: sums of dataX_')
            Y = np.asarray(q.dataY_)
            bags = q.bag_generator
            want = bags.prevalences_.T
            close(Y, want[:, 1] if k == 2 and Y.ndim == 1 else want, 1e-9, 'REGX: dataY_')
            return
        check(np.array_equal(q.classes_, C), '%s: classes_ is %s instead of %s', name, q.classes_, C)
        if name == 'EDX':
            groups = [X[idx == i] for i in range(k)]
            for i, g in enumerate(groups):
                check(np.array_equal(np.asarray(q.train_distrib_[C[i]]), g), 'EDX: train_distrib_ of class %s', C[i])
            close(np.ravel(q.train_n_cls_i_), [len(g) for g in groups], 0, 'EDX: train_n_cls_i_')
            d = q.distance if callable(q.distance) else euclidean_distances
            close(q.K_, average_distances(groups, d), 1e-6 * max(1, np.abs(X).max()), 'EDX: K_')
        elif name == 'PWKQuantifier':
            got = [list(C).index(v) for v in q.knn_estimator_.predict(X)] if hasattr(q, 'knn_estimator_') else None
            cm = np.asarray(q.cm_, dtype=float)
            if got is not None:
                close(cm / cm.sum(axis=1, keepdims=True), rates(C, idx, got), TOL, 'PWKQuantifier: cm_')
        elif name in ('DFX', 'HDX'):
            D = np.asarray(q.train_distrib_)
            check(D.shape == (q.n_bins * X.shape[1], k), '%s: train_distrib_ has shape %s', name, D.shape)
            D = D.reshape(X.shape[1], q.n_bins, k)
            total = D[:, -1] if q.distribution_function == 'CDF' else D.sum(axis=1)
            close(total, np.ones(total.shape), 1e-7, name + ': sums of train_distrib_')
    look()
    try:
        q.predict(T)
    except ValueError as e:
        if 'infinite minima' not in str(e):
            raise
    look()
    return zoo.label(c['q']) if k > 2 else None
