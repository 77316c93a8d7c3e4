"""Reference computations that share no code with the library."""
import itertools
import warnings

import numpy as np
from scipy.optimize import linprog
from scipy.stats import norm as gauss

from pbt.gen import check


# ------------------------------------------------------------------ optimisation over the simplex
def min_l1(A, t):
    """min_p |A p - t|_1 over the simplex, by linear programming. Returns (value, p)."""
    m, k = A.shape
    c = np.r_[np.zeros(k), np.ones(m)]
    Aub = np.block([[A, -np.eye(m)], [-A, -np.eye(m)]])
    r = linprog(c, A_ub=Aub, b_ub=np.r_[t, -t], A_eq=np.r_[np.ones(k), np.zeros(m)][None], b_eq=[1], method='highs')
    return r.fun, r.x[:k]


def min_l2(A, t):
    """min_p |A p - t|_2^2 over the simplex, by enumeration of the supports. Returns (value, p)."""
    m, k = A.shape
    best = (np.inf, None)
    for r in range(1, k + 1):
        for S in itertools.combinations(range(k), r):
            B = A[:, S]
            if r == 1:
                p = np.ones(1)
            else:
                # p = p0 + N z with N a basis of the vectors that sum 0
                N = np.vstack([np.eye(r - 1), -np.ones(r - 1)])
                p0 = np.ones(r) / r
                z = np.linalg.lstsq(B @ N, t - B @ p0, rcond=1e-12)[0]
                p = p0 + N @ z
                if p.min() < 0:
                    p = np.clip(p, 0, None)
                    p /= p.sum()
            v = np.sum((B @ p - t) ** 2)
            if v < best[0]:
                full = np.zeros(k)
                full[list(S)] = p
                best = (v, full)
    return best


def affinity(A, t, p):
    return np.sum(np.sqrt(np.clip(t, 0, None) * np.clip(A @ p, 0, None)))


def max_affinity(A, t, starts=(), iters=400):
    """A lower bound (attained) of max_p sum_i sqrt(t_i (A p)_i) over the simplex, by the monotone multiplicative
    update p_j <- p_j g_j^2 (Cauchy-Schwarz minorisation), from several starting points and the vertices."""
    k = A.shape[1]
    best = (-1.0, None)
    for v in np.eye(k):
        best = max(best, (affinity(A, t, v), tuple(v)))
    ini = [np.ones(k) / k] + [np.asarray(s, dtype=float) for s in starts]
    for p in ini:
        p = np.clip(p, 0, None) + 1e-9
        p = p / p.sum()
        for _ in range(iters):
            q = A @ p
            w = np.where((t > 0) & (q > 0), np.sqrt(np.clip(t, 0, None) / np.where(q > 0, q, 1)), 0)
            g = A.T @ w
            n = p * g * g
            s = n.sum()
            if not s > 0:
                break
            p = n / s
        best = max(best, (affinity(A, t, p), tuple(p)))
    return best[0], np.array(best[1])


def min_quadratic(Q, c, k):
    """min p'Qp - 2 c'p over the simplex (Q conditionally positive semidefinite), by enumeration of supports."""
    best = (np.inf, None)
    for r in range(1, k + 1):
        for S in itertools.combinations(range(k), r):
            S = list(S)
            B, d = Q[np.ix_(S, S)], c[S]
            if r == 1:
                p = np.ones(1)
            else:
                N = np.vstack([np.eye(r - 1), -np.ones(r - 1)])
                p0 = np.ones(r) / r
                H = N.T @ B @ N
                z = np.linalg.lstsq(H, N.T @ (d - B @ p0), rcond=1e-10)[0]
                p = p0 + N @ z
                if p.min() < 0:
                    p = np.clip(p, 0, None)
                    p /= p.sum()
            v = p @ B @ p - 2 * d @ p
            if v < best[0]:
                full = np.zeros(k)
                full[S] = p
                best = (v, full)
    return best


TOL = {'L1': 1e-5, 'L2': 1e-8, 'HD': 2e-5}


def optimal(p, M, o, distance, msg):
    """Checks that no valid prevalence vector is better than p for the distance between M p and o."""
    if distance == 'L1':
        best = min_l1(M, o)[0]
        got = np.abs(M @ p - o).sum()
        check(got <= best + TOL['L1'] * max(1, o.sum()), '%s: L1 is %.9g, the best is %.9g', msg, got, best)
    elif distance == 'L2':
        best = min_l2(M, o)[0]
        got = np.sum((M @ p - o) ** 2)
        check(got <= best + TOL['L2'] * max(1, o.sum()), '%s: L2^2 is %.9g, the best is %.9g', msg, got, best)
    else:
        best = max_affinity(M, o, [p])[0]
        got = affinity(M, o, p)
        gap = (best - got) / max(1, o.sum())
        if TOL['HD'] < gap <= 20 * TOL['HD'] and hard_for_solver(M, o):
            return
        check(gap <= TOL['HD'], '%s: the affinity is %.9g, the best is %.9g', msg, got, best)


def hard_for_solver(M, o):
    """Whether the interior point solver itself reports reduced accuracy for the maximum affinity (own formulation)."""
    import cvxpy
    q = cvxpy.Variable(M.shape[1], nonneg=True)
    prob = cvxpy.Problem(cvxpy.Minimize(1 - np.sqrt(np.ravel(o)) @ cvxpy.sqrt(M @ q)), [cvxpy.sum(q) == 1])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            prob.solve(solver='ECOS')
        except cvxpy.error.SolverError:
            return True
    return prob.status != 'optimal'


def project_grid(k, n=20):
    """All prevalence vectors with entries multiple of 1/n."""
    for c in itertools.combinations(range(n + k - 1), k - 1):
        c = (-1,) + c + (n + k - 1,)
        yield np.array([c[i + 1] - c[i] - 1 for i in range(k)]) / n


# ------------------------------------------------------------------ histograms
def edges(x, y, n_bins, strategy, rng=None):
    """Inner limits of the bins (n_bins - 1 values)."""
    x = np.asarray(x, dtype=float)
    if strategy == 'equal_width':
        lo, hi = rng if rng is not None else (x.min(), x.max())
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        return np.array([lo + (hi - lo) * i / n_bins for i in range(1, n_bins)])
    if strategy == 'equal_count':
        s = np.sort(x)
        out = []
        for i in range(1, n_bins):
            c = min(max(int(round(len(x) * i / n_bins)), 1), len(x) - 1)
            out.append((s[c - 1] + s[c]) / 2)
        return np.array(out)
    classes = sorted(set(y.tolist()))
    mus = [np.mean(x[y == c]) for c in classes]
    if strategy == 'binormal':
        mu, sd = np.mean(mus), np.mean([np.std(x[y == c]) for c in classes])
    else:
        mu = np.mean(mus)
        sd = np.sqrt(np.mean([np.mean((x[y == c] - mu) ** 2) for c in classes]))
    return np.array([mu + sd * gauss.ppf(i / n_bins) for i in range(1, n_bins)])


def spread(x, y, strategy):
    """Width that the normal strategies give to the bins; 0 when they have none to speak of."""
    x = np.asarray(x, dtype=float)
    sd = x.std() if strategy == 'normal' else np.mean([x[y == c].std() for c in np.unique(y)])
    return sd if sd > 1e-9 * max(1e-300, np.abs(x).max()) else 0.0


def near_edge(x, e, tol=1e-9):
    """Whether some value is too close to a limit to know its bin in floating point."""
    if not len(e):
        return False
    scale = max(1e-300, np.abs(x).max(), np.abs(e).max())
    return bool((np.abs(np.asarray(x)[:, None] - e[None]) <= tol * scale).any())


def hist(x, e):
    """Share of the examples in each bin: limits e, each bin closed on the left."""
    out = np.zeros(len(e) + 1)
    for v in x:
        out[int(np.sum(np.asarray(e) <= v))] += 1
    return out / len(x)


def one_hot(i, k):
    v = np.zeros(k)
    v[i] = 1
    return v
