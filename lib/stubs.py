"""Exactly computable stand-ins for the user-supplied machine learning models (see Learner.tla).

They see feature rows only through equality, so that neither the order of the columns nor the way a treatment is
encoded matters, and every answer depends on every training row."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin


def _weights(X, Z):
    X, Z = np.asarray(X, dtype=float), np.asarray(Z, dtype=float)
    assert X.ndim == 2 and Z.ndim == 2 and X.shape[1] == Z.shape[1], 'shape of features'
    assert np.isfinite(X).all() and np.isfinite(Z).all()
    return 1.0 + 2.0 * (X[None, :, :] == Z[:, None, :]).all(axis=2)  # (queries, rows)


class Sum(RegressorMixin, BaseEstimator):
    """predict(v) = sum of y_i (1 + 2 [x_i = v])"""

    def fit(self, X, y, sample_weight=None, **kw):
        y = np.asarray(y, dtype=float)
        assert y.ndim in (1, 2) and len(X) == len(y)
        self.X_, self.y_ = np.array(X, dtype=float), y.copy()
        if sample_weight is not None:
            self.y_ = self.y_ * np.asarray(sample_weight).reshape((-1,) + (1,) * (y.ndim - 1))
        return self

    def predict(self, X):
        return _weights(self.X_, X) @ self.y_


class Prob(ClassifierMixin, BaseEstimator):
    """the class number (sum of code(y_i) (1 + 2 [x_i = v])) mod K is the likeliest, up to 7 classes"""

    def fit(self, X, y, sample_weight=None, **kw):
        y = np.asarray(y)
        assert y.ndim == 1 and len(X) == len(y)
        self.classes_, self.code_ = np.unique(y, return_inverse=True)
        self.X_ = np.array(X, dtype=float)
        return self

    def predict_proba(self, X):
        k = len(self.classes_)
        pick = np.rint(_weights(self.X_, X) @ self.code_.astype(float)).astype(int) % k
        assert k <= 7
        row = [4, 2, 1, 1] if k == 4 else [9 - k] + [1] * (k - 1) if k > 2 else [8, 0] if k == 1 else [6, 2]
        return np.array([[row[(j - q) % k] for j in range(k)] for q in pick]).reshape(len(pick), k) / 8

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(axis=1)]


class Rare(Prob):
    """the same with a probability of 1/256 for every class but the likeliest"""

    def predict_proba(self, X):
        p = super().predict_proba(X)
        k = p.shape[1]
        return np.where(p > .25, 1 - (k - 1) / 256, 1 / 256)


class Cross(RegressorMixin, BaseEstimator):
    """a linear model with coef_ = X' y, no intercept: stands for the last stage of double machine learning"""

    def fit(self, X, y, sample_weight=None, **kw):
        X, y = np.asarray(X, dtype=float), np.asarray(y, dtype=float)
        assert X.ndim == 2 and y.ndim in (1, 2) and len(X) == len(y)
        self.coef_ = (X.T @ y).T
        self.intercept_ = 0.
        return self

    def predict(self, X):
        return np.asarray(X) @ self.coef_.T


class More(BaseEstimator):
    """a transformer which appends 2 x + 1 for every column x"""

    def fit(self, X, y=None):
        self.d_ = np.asarray(X).shape[1]
        return self

    def transform(self, X):
        X = np.asarray(X, dtype=float)
        assert X.ndim == 2 and X.shape[1] == self.d_
        return np.hstack([X, 2 * X + 1])

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)


def exact(x, unit=1):
    """x * unit as an integer if it is one, else a number no clause accepts"""
    x = float(x) * unit
    if not np.isfinite(x) or abs(x) > 2 ** 31 - 2 or abs(x - round(x)) > 1e-6 * max(1., abs(x)):
        return 2 ** 31 - 1
    return int(round(x))
