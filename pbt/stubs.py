"""Estimators whose answers are known in advance."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.exceptions import NotFittedError

from quantificationlib.base import UsingClassifiers, WithoutClassifiers


class Carrier(BaseEstimator, ClassifierMixin):
    """A classifier that reads its probabilities from the features: row i of X *is* the probability row of example i
    (the first n_classes columns).  It only answers after being fitted and counts how often it is fitted."""

    def __init__(self, crisp=False):
        self.crisp = crisp

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.n_fits_ = getattr(self, 'n_fits_', 0) + 1
        return self

    def _proba(self, X):
        if not hasattr(self, 'classes_'):
            raise NotFittedError('not fitted')
        return np.array(X[:, :len(self.classes_)], dtype=float)

    def predict_proba(self, X):
        if self.crisp:
            raise AttributeError('crisp classifier')
        return self._proba(X)

    def predict(self, X):
        best = self._proba(X).argmax(axis=1)
        return self.classes_[best]


class Scripted(BaseEstimator, ClassifierMixin):
    """A binary or multiclass model whose probabilities are an arbitrary but reproducible function of the example, of the
    training data and of `gain`.  grid > 0 rounds them (ties, zeros, ones and halves)."""

    LOG = []       # (X, y) of every fit

    def __init__(self, gain=1.0, grid=0):
        self.gain = gain
        self.grid = grid

    def fit(self, X, y, sample_weight=None):
        X, y = np.asarray(X, dtype=float), np.asarray(y)
        Scripted.LOG.append((X.copy(), y.copy()))
        self.classes_ = np.unique(y)
        w = np.ones(len(y)) if sample_weight is None else np.asarray(sample_weight, dtype=float)
        code = np.searchsorted(self.classes_, y) + 1.0
        u = np.cos(np.arange(X.shape[1]) + 1.0)
        # rounding: the order of the examples must not matter, not even in the last bits
        self.key_ = round(float(np.sum(np.sin(X @ u * 3 + 1) * code * w)), 7)
        self.n_fits_ = getattr(self, 'n_fits_', 0) + 1
        return self

    def predict_proba(self, X):
        if not hasattr(self, 'key_'):
            raise NotFittedError('not fitted')
        X = np.asarray(X, dtype=float)
        u = np.sin(np.arange(X.shape[1]) + 0.5)
        k = len(self.classes_)
        z = np.array([np.sin(self.key_ * (1.3 + j) + self.gain * (j + 1) * (X @ u) + j) for j in range(k)]).T
        P = np.exp(2.5 * z)
        P = P / P.sum(axis=1, keepdims=True)
        if self.grid and k == 2:
            p = np.round(P[:, 1] * self.grid) / self.grid
            P = np.array([1 - p, p]).T
        return P

    def predict(self, X):
        best = self.predict_proba(X).argmax(axis=1)
        return self.classes_[best]


def digest(*arrays):
    return round(sum(float(np.sum(np.sin(3 * np.ravel(a) + np.arange(np.size(a)) * 0.7))) for a in arrays), 6)


def estimate(key, grid, k=2):
    if k == 2:
        v = 0.5 + 0.5 * np.sin(37 * key)
        if grid < 0:                        # close to 0
            return np.array([1 - v * 10.0 ** grid, v * 10.0 ** grid])
        v = np.round(v * grid) / grid if grid else v
        return np.array([1 - v, v])
    v = np.exp(3 * np.sin(37 * key * (1 + 0.3 * np.arange(k)) + np.arange(k)))
    v = v / v.sum()
    if grid > 0:
        n = np.floor(v * grid)
        n[np.argmax(v)] += grid - n.sum()
        v = n / grid
    return v


class RecY(UsingClassifiers):
    """A quantifier with arbitrary estimates, which depend on all that it was given."""

    def __init__(self, grid=0, estimator_train=None, estimator_test=None, verbose=0):
        super().__init__(estimator_train=estimator_train, estimator_test=estimator_test, needs_predictions_train=True,
                         probabilistic_predictions=True, verbose=verbose)
        self.grid = grid

    def fit(self, X, y, predictions_train=None):
        super().fit(X, y, predictions_train=predictions_train)
        self.y_ = np.searchsorted(self.classes_, y)
        return self

    def predict(self, X, predictions_test=None):
        super().predict(X, predictions_test=predictions_test)
        return estimate(digest(self.y_, self.predictions_train_, self.predictions_test_), self.grid, len(self.classes_))


class RecX(WithoutClassifiers):
    def __init__(self, grid=0, verbose=0):
        super().__init__(verbose=verbose)
        self.grid = grid

    def fit(self, X, y):
        super().fit(X, y)
        self.key_ = digest(X, np.searchsorted(self.classes_, y))
        return self

    def predict(self, X):
        return estimate(self.key_ + digest(X), self.grid, len(self.classes_))
