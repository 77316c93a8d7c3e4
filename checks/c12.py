"""C12 bag generators."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import sub
from pbt.gen import upto, more, ANY_LABELS, SEED, build_train, check, close, labels, train_spec
from quantificationlib.bag_generator import (CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator,
                                             PriorShift_BagGenerator)


@st.composite
def cases(draw):
    spec = draw(train_spec(2, 5, 1, 8))
    k = spec['k']
    gen = draw(st.sampled_from(['prior', 'prior', 'covariate', 'both']))
    method = draw(st.sampled_from(['Uniform', 'Dirichlet']))
    size = draw(st.one_of(st.none(), st.integers(1, upto(60))))
    n = size if size is not None else sum(spec['counts'])
    minp, alphas = None, None
    if gen != 'covariate' and method == 'Uniform':
        m = draw(st.sampled_from(['none', 'scalar', 'array', 'list']))
        if m == 'scalar':
            minp = draw(st.integers(0, 20)) / 20 * 0.9 / k
        elif m != 'none':
            w = draw(st.lists(st.integers(0, 6), min_size=k, max_size=k))
            minp = [x / max(1, sum(w)) * draw(st.sampled_from([0.3, 0.6, 0.8])) for x in w]
            if m == 'array':
                minp = {'array': minp}
    elif gen != 'covariate':
        alphas = draw(st.one_of(st.sampled_from([0.1, 0.5, 1.0, 1, 10.0]),
                                st.lists(st.sampled_from([0.2, 1.0, 3.0, 20.0]), min_size=k, max_size=k)))
    return dict(spec=spec, gen=gen, method=method, size=size, n=n, minp=minp, alphas=alphas,
                n_bags=draw(st.integers(1, more(12, 8))), kind=draw(st.sampled_from(ANY_LABELS)),
                seed=draw(st.integers(0, 2 ** 31 - 1)), rs=draw(st.sampled_from(['int', 'np', 'obj'])),
                xnone=draw(st.booleans()))


def make(c):
    rs = {'int': int, 'np': np.int64, 'obj': np.random.RandomState}[c['rs']](c['seed'])
    if c['gen'] == 'covariate':
        return CovariateShift_BagGenerator(n_bags=c['n_bags'], bag_size=c['size'], random_state=rs)
    minp = c['minp']
    if isinstance(minp, dict):
        minp = np.array(minp['array'])
    cls = PriorShift_BagGenerator if c['gen'] == 'prior' else PriorAndCovariateShift_BagGenerator
    return cls(n_bags=c['n_bags'], bag_size=c['size'], method=c['method'],
               alphas=c['alphas'] if np.isscalar(c['alphas']) or c['alphas'] is None else list(c['alphas']),
               min_prevalence=minp, random_state=rs)


def feasible(c):
    if c['minp'] is None:
        return True
    k, n = c['spec']['k'], c['n']
    m = c['minp']['array'] if isinstance(c['minp'], dict) else c['minp']
    m = np.ones(k) * m
    low = np.floor(m * n + 0.5 + 1e-9)
    if low.sum() + 1 >= n:
        return False
    # bags are drawn and rejected until they have the minimum: where nearly all are rejected it takes minutes
    accepted = max(1e-9, 1 - low[1:-1].sum() / max(1, n - low[0] - low[-1])) ** (k - 1) if k > 2 else 1
    return accepted > 1e-4


def min_examples(c):
    k, n = c['spec']['k'], c['n']
    if c['minp'] is None:
        return np.zeros(k)
    m = c['minp']['array'] if isinstance(c['minp'], dict) else c['minp']
    return np.ceil(np.ones(k) * m * n - 0.5 - 1e-9)


def same(a, b):
    return all(x.dtype == y.dtype and np.array_equal(x, y) for x, y in zip(a, b))


@sub('C12', 'bags', cases, quick=700, big=43,
     rule='generator x method x bag size x minimum prevalences/alphas x labels; oracle: recount of the labels of the '
          'selected examples; non-trivial with two or more bags of two or more examples')
def bags(c):
    if not feasible(c):
        return None
    X, y = build_train(c['spec'], c['kind'])
    X0, y0 = X.copy(), y.copy()
    k, n, m = c['spec']['k'], c['n'], c['n_bags']
    classes = np.unique(y)
    g = make(c)
    state = np.random.get_state()
    xarg = None if c['xnone'] and c['gen'] == 'prior' else X
    prev, idx = g.generate_bags(xarg, y)
    after = np.random.get_state()
    check(np.array_equal(state[1], after[1]) and state[2] == after[2], 'the global random generator was used')
    check(np.array_equal(X, X0) and np.array_equal(y, y0), 'the data were changed')
    check(prev.shape == (k, m), 'prevalences have shape %s', prev.shape)
    check(idx.shape == (n, m), 'indexes have shape %s', idx.shape)
    check(np.issubdtype(idx.dtype, np.integer), 'indexes are not integers')
    check(idx.min() >= 0 and idx.max() < len(y), 'index out of range')
    check(np.isfinite(prev).all() and (prev >= 0).all(), 'invalid prevalences')
    low = min_examples(c)
    prior_bags = m if c['gen'] == 'prior' else 0 if c['gen'] == 'covariate' else m // 2
    for b in range(m):
        cnt = np.array([(y[idx[:, b]] == cl).sum() for cl in classes])
        close(prev[:, b], cnt / n, 1e-12, 'prevalences of bag %d' % b)
        close(prev[:, b].sum(), 1, 1e-9, 'sum of the prevalences of bag %d' % b)
        if b < prior_bags and c['minp'] is not None:
            check((cnt >= low).all(), 'bag %d has %s examples, the minimum is %s', b, cnt, low)
    check(g.prevalences_ is not None and same((g.prevalences_, g.indexes_), (prev, idx)), 'attributes differ from the result')
    # the same generator asked again
    p1, i1 = prev.copy(), idx.copy()
    check(same(g.generate_bags(xarg, y), (p1, i1)), 'asking again gives other bags')
    # same seed, another state of the global generator
    np.random.seed(99 + c['seed'] % 1000)
    check(same(make(c).generate_bags(xarg, y), (p1, i1)), 'the same seed gives other bags')
    # another seed
    if n * m >= 60 and len(y) >= 8:
        d = dict(c, seed=c['seed'] + 1)
        check(not same(make(d).generate_bags(xarg, y), (p1, i1)), 'another seed gives the same bags')
    return m > 1 and n > 1 and '%s/%s/%d' % (c['gen'], c['method'] if c['gen'] != 'covariate' else '-', k)


@st.composite
def many_cases(draw):
    k = draw(st.integers(2, 5))
    return dict(k=k, share=draw(st.lists(st.integers(1, 9), min_size=k, max_size=k)), rows=draw(st.integers(66000, 140000)),
                gen=draw(st.sampled_from(['prior', 'prior', 'covariate', 'both'])), method=draw(st.sampled_from(['Uniform', 'Dirichlet'])),
                size=draw(st.sampled_from([None, 200, 5000, 70000])), kind=draw(st.sampled_from(ANY_LABELS)), seed=draw(st.integers(0, 2 ** 31 - 1)))


@sub('C12', 'many_examples', many_cases, quick=12, thorough=100,
     rule='training sets of 66000 to 140000 examples: labels recounted, early and late examples equally often; all non-trivial')
def many_examples(c):
    r = np.random.RandomState(c['seed'] % 1000)
    L = labels(c['kind'], c['k'])
    idx = r.permutation(np.repeat(np.arange(c['k']), np.maximum(1, np.array(c['share']) * c['rows'] // sum(c['share']))))
    y, X = L[idx], r.uniform(size=(len(idx), 1)) / 100
    kw = dict(n_bags=4, bag_size=c['size'], random_state=c['seed'])
    if c['gen'] != 'covariate':
        kw.update(method=c['method'], alphas=2.0 if c['method'] == 'Dirichlet' else None)
    g = {'prior': PriorShift_BagGenerator, 'covariate': CovariateShift_BagGenerator, 'both': PriorAndCovariateShift_BagGenerator}[c['gen']](**kw)
    prev, ind = g.generate_bags(X, y)
    n = c['size'] or len(y)
    check(ind.shape == (n, 4) and prev.shape == (c['k'], 4), 'shapes %s and %s', ind.shape, prev.shape)
    check(ind.min() >= 0 and ind.max() < len(y), 'index out of range')
    for b in range(4):
        close(prev[:, b], np.bincount(idx[ind[:, b]], minlength=c['k']) / n, 1e-12, 'prevalences of bag %d' % b)
    early = (ind < len(y) / 2).mean()
    # the kernel is flat and the order random: the bags use early and late examples alike
    q = [(idx[:len(y) // 2] == i).sum() / max(1, (idx == i).sum()) for i in range(c['k'])]
    want = sum(prev.mean(axis=1) * q) if c['gen'] == 'prior' else 0.5
    check(abs(early - want) <= 7 * 0.5 / np.sqrt(ind.size) + 0.01 + (0.05 if c['gen'] != 'prior' else 0),
          'early examples: a share of %s, expected %s', early, want)
    return c['gen']


@st.composite
def stat_cases(draw):
    k = draw(st.integers(2, 4))
    return dict(k=k, counts=draw(st.lists(st.integers(1, 5), min_size=k, max_size=k)), n=draw(st.sampled_from([40, 100, 200])),
                method=draw(st.sampled_from(['Uniform', 'Dirichlet'])), m=1500,
                alphas=draw(st.one_of(st.sampled_from([0.5, 1.0, 4.0]),
                                      st.lists(st.sampled_from([0.5, 1.0, 2.0, 6.0]), min_size=k, max_size=k))),
                seed=draw(st.integers(0, 2 ** 31 - 1)))


@sub('C12', 'distribution', stat_cases, quick=40, thorough=300,
     rule='1500 bags; means/spread of the prevalences and of the use of each example against their expectation within '
          '7 standard errors; every case is non-trivial')
def distribution(c):
    k, n, m = c['k'], c['n'], c['m']
    y = np.repeat(np.arange(k), c['counts'])
    g = PriorShift_BagGenerator(n_bags=m, bag_size=n, method=c['method'], random_state=c['seed'],
                                alphas=c['alphas'] if c['method'] == 'Dirichlet' else None)
    prev, idx = g.generate_bags(None, y)
    a = np.ones(k) if c['method'] == 'Uniform' else np.ones(k) * np.array(c['alphas'])
    A = a.sum()
    mean = a / A
    sd = np.sqrt(mean * (1 - mean) / (A + 1))
    slack = 7 * sd / np.sqrt(m) + 1.0 / n
    check((np.abs(prev.mean(axis=1) - mean) <= slack).all(), 'mean prevalences %s, expected %s', prev.mean(axis=1), mean)
    check((np.abs(prev.std(axis=1) - sd) <= 0.15 * sd + 1.0 / n).all(), 'spread of the prevalences %s, expected %s',
          prev.std(axis=1), sd)
    # within a class every example is used about equally often
    for cl in range(k):
        members = np.where(y == cl)[0]
        use = np.array([(idx == i).sum() for i in members], dtype=float)
        tot, q = use.sum(), 1 / len(members)
        check((np.abs(use - tot * q) <= 7 * np.sqrt(tot * q * (1 - q)) + 1e-9).all(),
              'the examples of a class are not used equally often: %s', use)
    # bags must not all start from the same draw
    check(len({tuple(v) for v in prev.T.round(6)}) > 10, 'the bags are all alike')
    return '%s/%d' % (c['method'], k)


@st.composite
def cov_cases(draw):
    n_cl = draw(st.integers(2, 4))
    return dict(sizes=draw(st.lists(st.integers(1, upto(8)), min_size=n_cl, max_size=n_cl)), d=draw(st.integers(1, 3)),
                n=draw(st.integers(1, upto(30))), m=draw(st.sampled_from([20, 60, 600])), seed=draw(st.integers(0, 2 ** 31 - 1)),
                rseed=draw(SEED), gen=draw(st.sampled_from(['covariate', 'both'])))


@sub('C12', 'covariate', cov_cases, quick=150, big=16,
     rule='groups of examples too far apart for the kernel: every covariate bag must stay in the group of its centre; '
          'non-trivial with bags of 2+ examples')
def covariate(c):
    r = np.random.RandomState(c['rseed'])
    grp = np.repeat(np.arange(len(c['sizes'])), c['sizes'])
    X = grp[:, None] * 500.0 + r.uniform(-0.5, 0.5, size=(len(grp), c['d']))
    y = r.randint(0, 2, len(grp))
    y[:2] = [0, 1]
    o = r.permutation(len(grp))
    X, y, grp = X[o], y[o], grp[o]
    cls = CovariateShift_BagGenerator if c['gen'] == 'covariate' else PriorAndCovariateShift_BagGenerator
    g = cls(n_bags=c['m'], bag_size=c['n'], random_state=c['seed'])
    prev, idx = g.generate_bags(X, y)
    first = 0 if c['gen'] == 'covariate' else c['m'] // 2
    hits = np.zeros(len(c['sizes']))
    for b in range(first, c['m']):
        members = set(grp[idx[:, b]].tolist())
        check(len(members) == 1, 'covariate bag %d mixes far apart examples', b)
        hits[members.pop()] += 1
    tot = hits.sum()
    q = np.array(c['sizes']) / len(grp)
    check((np.abs(hits - tot * q) <= 7 * np.sqrt(tot * q * (1 - q)) + 1).all(),
          'centres are not drawn uniformly: %s bags per group of %s examples', hits, c['sizes'])
    return c['n'] > 1 and c['gen']


@sub('C12', 'kernel', lambda: st.fixed_dictionaries(dict(seed=st.integers(0, 2 ** 31 - 1), d=st.integers(1, 4),
                                                        gap=st.sampled_from([0.5, 1.0, 1.5, 2.0]))),
     quick=20, thorough=120,
     rule='two points: the share of the other point in the bags must match the Gaussian kernel with width '
          '1/features; all non-trivial')
def kernel(c):
    X = np.zeros((2, c['d']))
    X[1, :] = c['gap']
    y = np.array([0, 1])
    n, m = 400, 40
    g = CovariateShift_BagGenerator(n_bags=m, bag_size=n, random_state=c['seed'])
    prev, idx = g.generate_bags(X, y)
    w = np.exp(-c['gap'] ** 2)      # gamma * squared distance = 1/d * d * gap^2
    q = w / (1 + w)
    minority = prev.min(axis=0)
    close(minority.mean(), q, 7 * np.sqrt(q * (1 - q) / (n * m)) + 0.004, 'share of the farther point')
    return 'gap %s' % c['gap']


@st.composite
def reuse_cases(draw):
    c = draw(cases())
    c['rs'] = draw(st.sampled_from(['int', 'np']))
    c['minp'] = None
    c['n_bags'] = min(c['n_bags'], 6)
    c['sets'] = draw(st.lists(st.tuples(st.sampled_from(['labels', 'features', 'size']), SEED), min_size=1, max_size=2))
    c['calls'] = draw(st.lists(st.integers(0, len(c['sets'])), min_size=2, max_size=5))
    return c


@sub('C12', 'reuse', reuse_cases, quick=300, big=18,
     rule='one generator with an integer seed asked for bags of several data sets in any order (other labels, other features '
          'with the same labels, more examples): each answer is the one of a generator that never saw the others; non-trivial '
          'when the history alternates')
def reuse(c):
    X, y = build_train(c['spec'], c['kind'])
    data = [(X, y)]
    for how, s in c['sets']:
        r = np.random.RandomState(s)
        if how == 'labels':
            data.append((X, y[r.permutation(len(y))]))
        elif how == 'features':
            data.append((r.normal(size=X.shape), y))
        else:
            o = r.randint(0, len(y), 5)
            data.append((np.vstack([X, X[o]]), np.r_[y, y[o]]))
    g = make(c)
    for j, i in enumerate(c['calls']):
        got = g.generate_bags(*data[i])
        own = make(c).generate_bags(*data[i])
        check(same(got, own), 'call %d of %s: other bags than those of a new generator', j, c['calls'])
    return len(set(c['calls'])) > 1 and '%s/%s' % (c['gen'], '+'.join(sorted({h for h, _ in c['sets']})))
