"""C26 loading, normalising, plotting."""
import io
import os
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st
from matplotlib import colors as mcolors
from matplotlib.collections import LineCollection
from matplotlib.figure import Figure

from pbt.core import sub
from pbt.gen import upto, more, SEED, check, close, simplex, norm
from quantificationlib.data_utils import load_data, normalize
from quantificationlib.plot.qlplot import plot_boxes, plot_line_prevalences


@st.composite
def tables(draw):
    d = draw(st.integers(1, 5))
    value = st.one_of(st.integers(-5, 5).map(float), st.floats(-1e6, 1e6), st.sampled_from([1e-300, -1e-9, 1e300, 0.1, -0.0, 123456789.123456]))
    rows = draw(st.lists(st.tuples(st.lists(value, min_size=d, max_size=d), st.one_of(st.integers(-5, 2000), st.sampled_from([-70000, 40000, 2 ** 31 + 7, 10 ** 12 + 3]))), min_size=1, max_size=20))
    return dict(rows=[[list(a), b] for a, b in rows], fmt=draw(st.sampled_from(['repr', 'repr', 'exp', 'spaces', 'crlf'])),
                how=draw(st.sampled_from(['path', 'Path', 'file'])), end=draw(st.booleans()))


@sub('C26', 'load', tables, quick=1000, big=62,
     rule='files of one or more rows with one to five features and integer labels (negative, very large, exponents, spaces, line ends): the features and the '
          'labels come back exactly, in order; non-trivial with two or more features')
def load(c):
    def show(v):
        return '%.17e' % v if c['fmt'] == 'exp' else repr(v)
    sep = ', ' if c['fmt'] == 'spaces' else ','
    nl = '\r\n' if c['fmt'] == 'crlf' else '\n'
    text = nl.join(sep.join([show(v) for v in a] + [str(b)]) for a, b in c['rows']) + (nl if c['end'] else '')
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'data.csv')
        with open(path, 'w', newline='') as f:
            f.write(text)
        X, y = load_data(path if c['how'] == 'path' else pathlib.Path(path) if c['how'] == 'Path' else io.StringIO(text))
        with open(path, newline='') as f:
            check(f.read() == text, 'the file was modified')
    A = np.array([a for a, _ in c['rows']])
    check(np.asarray(X).shape == A.shape, 'features have shape %s instead of %s', np.asarray(X).shape, A.shape)
    check(np.array_equal(X, A), 'features %s instead of %s', X, A)
    b = np.array([b for _, b in c['rows']])
    check(np.issubdtype(np.asarray(y).dtype, np.integer), 'labels of type %s', np.asarray(y).dtype)
    check(np.array_equal(y, b), 'labels %s instead of %s', y, b)
    return A.shape[1] > 1 and '%s %s%s' % (c['fmt'], c['how'], ' one row' if len(A) == 1 else '')


@st.composite
def pairs(draw):
    d = draw(st.integers(1, 5))
    return dict(n=draw(st.integers(1, upto(15))), m=draw(st.integers(1, upto(10))), d=d, seed=draw(SEED),
                kinds=draw(st.lists(st.sampled_from(['normal', 'constant', 'zero', 'integer', 'large', 'tiny']), min_size=d, max_size=d)),
                same=draw(st.booleans()), stored=draw(st.sampled_from([None, None, 'int64', 'int32', 'int16'])))


@sub('C26', 'normalise', pairs, quick=1500, big=93,
     rule='training and test parts with constant, integer, large and tiny columns: both mapped with mean and deviation of the training '
          'part (constant columns centred only), in double precision also when the data are integers; the inputs are left alone; '
          'non-trivial with two or more examples')
def normalise(c):
    r = np.random.RandomState(c['seed'])

    def block(n, off):
        out = []
        for i, k in enumerate(c['kinds']):
            s = np.random.RandomState((c['seed'] + i + 1) % 2**32)
            loc, v = s.normal() * 10, r.normal(size=n)
            out.append({'normal': loc + v, 'constant': np.full(n, float(np.round(loc)) + off), 'zero': np.zeros(n) + off,
                        'integer': np.round(v * 3), 'large': 1e6 + 1e5 * v, 'tiny': 1e-6 * v}[k])
        return np.array(out).T.reshape(n, c['d'])
    A, B = block(c['n'], 0), block(c['m'], 3)
    if c['stored']:
        A, B = [np.round(np.clip(M * (1 if c['stored'] == 'int16' else 100), -3e4, 3e7 if c['stored'] != 'int16' else 3e4)).astype(c['stored']) for M in (A, B)]
    if c['same']:
        B = A
    A0, B0 = A.copy(), B.copy()
    a, b = normalize(A, B)
    check(np.array_equal(A, A0) and np.array_equal(B, B0), 'the data were modified')
    mu = np.array([sum(col) / len(col) for col in A.T.tolist()])
    sd = np.array([np.sqrt(sum((v - m) ** 2 for v in col) / len(col)) for col, m in zip(A.T.tolist(), mu)])
    sd = np.where(np.ptp(A, axis=0) == 0, 1, sd)
    for M, got, what in ((A, a, 'training'), (B, b, 'test')):
        want = (M - mu) / sd
        tol = 1e-10 + 1e3 * np.finfo(float).eps * (np.abs(A).max(axis=0) / sd + np.abs(want))
        check(np.asarray(got).shape == M.shape and (np.abs(got - want) <= tol).all(), '%s part: %s instead of %s', what, got[:2], want[:2])
    return c['n'] > 1 and '+'.join(sorted(set(c['kinds']))) + (' ' + c['stored'] if c['stored'] else '')


COLOURS = ['#102030', 'red', '#ff8800', 'blue', 'green', '#aabbcc', 'black', 'cyan', 'purple', '#778800']


@st.composite
def lines(draw):
    k = draw(st.integers(2, more(7, 3)))
    n = draw(st.integers(1, upto(10)))
    return dict(k=k, rows=draw(st.lists(simplex(k), min_size=n, max_size=n)), order=draw(st.sampled_from([None, 'ascending', 'descending'])),
                colors=draw(st.booleans()))


@sub('C26', 'lines', lines, quick=300, big=24,
     rule='prevalences drawn as lines on a real (off-screen) axis: one line per row from bottom to top, its segments contiguous, of '
          'the lengths and colours of the classes, rows sorted by the first class when asked; the matrix is left alone; '
          'non-trivial with two or more rows')
def lines_check(c):
    M = np.array([norm(v) for v in c['rows']])
    M0 = M.copy()
    ax = Figure().subplots()
    colours = COLOURS[:c['k']] if c['colors'] else None
    plot_line_prevalences(ax, M, order=c['order'], colors=colours)
    check(np.array_equal(M, M0), 'the prevalences were modified')
    if colours is not None:
        check(colours == COLOURS[:c['k']], 'the list of colours was modified')
    got = {}
    for col in ax.collections:
        check(isinstance(col, LineCollection), 'unexpected collection')
        for s, rgba in zip(col.get_segments(), np.resize(col.get_colors(), (len(col.get_segments()), 4))):
            s = np.asarray(s)
            check(np.ptp(s[:, 1]) == 0, 'a segment is not horizontal')
            got.setdefault(float(s[0, 1]), []).append((float(s[:, 0].min()), float(s[:, 0].max()), tuple(rgba)))
    check(sorted(got) == [i + 1.0 for i in range(len(M))], 'lines at %s for %d rows', sorted(got), len(M))
    names = COLOURS if c['colors'] else list(mcolors.TABLEAU_COLORS)
    rgb = [mcolors.to_rgba(v) for v in names[:c['k']]]
    drawn = []
    for y in sorted(got):
        parts = got[y]
        check(len(parts) == c['k'], '%d segments for %d classes', len(parts), c['k'])
        by = [next(p for p in parts if np.allclose(p[2], v)) for v in rgb]
        check(abs(by[0][0]) < 1e-9 and abs(by[-1][1] - 100) < 1e-6, 'the line does not go from end to end: %s', by)
        for p, r in zip(by, by[1:]):
            check(abs(p[1] - r[0]) < 1e-9, 'segments are not contiguous: %s', by)
        drawn.append([(b - a) / 100 for a, b, _ in by])
    drawn = np.array(drawn)
    if c['order'] is None:
        close(drawn, M, 1e-9, 'lines')
    else:
        key = sorted(range(len(M)), key=lambda i: tuple(np.round(M[i], 9)))
        close(drawn[np.lexsort(np.round(drawn, 9).T[::-1])], M[key], 1e-8, 'sorted lines')
        d = np.diff(drawn[:, 0]) * (1 if c['order'] == 'ascending' else -1)
        check((d >= -1e-9).all(), 'lines are not in %s order: %s', c['order'], drawn[:, 0])
    lo, hi = ax.get_ylim()
    check(lo < 1 and hi > len(M) and ax.get_xlim()[0] <= 0 and ax.get_xlim()[1] >= 100, 'the lines do not fit in the axes')
    return len(M) > 1 and '%s' % c['order']


@st.composite
def boxes(draw):
    return dict(n=draw(st.integers(1, 12)), m=draw(st.integers(1, 5)), seed=draw(SEED), ties=draw(st.booleans()), vert=draw(st.sampled_from([None, True, False])),
                labels=draw(st.booleans()), colors=draw(st.booleans()), titles=draw(st.booleans()))


@sub('C26', 'boxes', boxes, quick=120, thorough=800,
     rule='box plots on a real (off-screen) axis: one box per column with its median, quartiles, colours, labels and titles; the '
          'errors are left alone; non-trivial with two or more systems')
def boxes_check(c):
    r = np.random.RandomState(c['seed'])
    M = np.abs(r.normal(size=(c['n'], c['m'])))
    if c['ties']:
        M = np.round(M, 1)
    M0 = M.copy()
    ax = Figure().subplots()
    seen = []
    draw = ax.boxplot

    def spy(*a, **k):
        seen.append(draw(*a, **k))
        return seen[-1]
    ax.boxplot = spy
    names = ['s%d' % i for i in range(c['m'])] if c['labels'] else None
    cols = COLOURS[:c['m']] if c['colors'] else None
    kw = {} if c['vert'] is None else dict(vert=c['vert'])
    plot_boxes(ax, M, y_title='errors' if c['titles'] else None, x_title='systems' if c['titles'] else None, labels=names, colors=cols, **kw)
    check(np.array_equal(M, M0), 'the errors were modified')
    if not seen:
        return None
    b = seen[-1]
    flat = c['vert'] is False
    check(len(b['medians']) == c['m'] and len(b['boxes']) == c['m'], '%d boxes for %d systems', len(b['medians']), c['m'])
    for j in range(c['m']):
        med = b['medians'][j].get_xdata() if flat else b['medians'][j].get_ydata()
        close(med, np.full(len(med), np.median(M[:, j])), 1e-12, 'median of system %d' % j)
        if c['colors']:
            pts = np.asarray(b['boxes'][j].get_path().vertices)[:, 0 if flat else 1]
            check(np.allclose(b['boxes'][j].get_facecolor(), mcolors.to_rgba(cols[j])), 'colour of system %d', j)
        else:
            pts = np.asarray(b['boxes'][j].get_xdata() if flat else b['boxes'][j].get_ydata())
        q1, q3 = np.percentile(M[:, j], [25, 75])
        box = pts[:4]
        close([box.min(), box.max()], [q1, q3], 1e-9, 'quartiles of system %d' % j)
    if c['labels']:
        ticks = ax.get_yticklabels() if flat else ax.get_xticklabels()
        check([t.get_text() for t in ticks] == names, 'labels are %s', [t.get_text() for t in ticks])
    if c['titles']:
        check(ax.get_xlabel() == 'systems' and ax.get_ylabel() == 'errors', 'titles are %s, %s', ax.get_xlabel(), ax.get_ylabel())
    return c['m'] > 1 and '%s%s' % (c['vert'], ' colours' if c['colors'] else '')
