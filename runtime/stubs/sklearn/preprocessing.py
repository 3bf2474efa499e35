import numpy as np
from .base import BaseEstimator, TransformerMixin
class StandardScaler(TransformerMixin, BaseEstimator):
    def __init__(self, *, copy=True, with_mean=True, with_std=True):
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std
    def fit(self, X, y=None, sample_weight=None):
        X = np.asarray(X, dtype=float)
        self.n_features_in_ = X.shape[1]
        self.mean_ = X.mean(axis=0)
        s = X.std(axis=0)
        self.scale_ = np.where(s < 10 * np.finfo(float).eps, 1.0, s)
        return self
    def transform(self, X, copy=None):
        X = np.asarray(X, dtype=float)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("X has {} features, but {} is expecting {} features as input".format(
                X.shape[1], type(self).__name__, self.n_features_in_))
        if self.with_mean:
            X = X - self.mean_
        return X / self.scale_ if self.with_std else X
class MinMaxScaler(TransformerMixin, BaseEstimator):
    def __init__(self, feature_range=(0, 1), *, copy=True, clip=False):
        self.feature_range, self.copy, self.clip = feature_range, copy, clip
    def fit(self, X, y=None):
        X = np.asarray(X, dtype=float)
        self.n_features_in_ = X.shape[1]
        self.min_v, self.max_v = X.min(axis=0), X.max(axis=0)
        return self
    def transform(self, X):
        X = np.asarray(X, dtype=float)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("X has {} features, expected {}".format(X.shape[1], self.n_features_in_))
        r = self.max_v - self.min_v
        return (X - self.min_v) / np.where(r == 0, 1, r)
class LabelEncoder:
    def fit(self, y):
        self.classes_ = np.unique(y)
        return self
    def transform(self, y):
        y = np.asarray(y)
        if not np.isin(y, self.classes_).all():
            raise ValueError("y contains previously unseen labels")
        return np.searchsorted(self.classes_, y)
