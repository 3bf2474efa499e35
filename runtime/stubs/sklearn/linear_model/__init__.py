import numpy as np
from ..base import BaseEstimator, ClassifierMixin
class RidgeClassifierCV(ClassifierMixin, BaseEstimator):
    """Ridge classification with leave-one-out choice of alpha, after scikit-learn 1.2:
    targets -1/+1, one column when binary; cv_values_ (n, k, n_alphas) holds the LOO predictions
    when a scorer is given and the squared errors otherwise."""
    def __init__(self, alphas=(0.1, 1.0, 10.0), *, fit_intercept=True, scoring=None, cv=None,
                 class_weight=None, store_cv_values=False):
        self.alphas, self.fit_intercept, self.scoring = alphas, fit_intercept, scoring
        self.cv, self.class_weight, self.store_cv_values = cv, class_weight, store_cv_values
    def fit(self, X, y, sample_weight=None):
        X = np.asarray(X, dtype=float)
        y = np.asarray(y)
        self.classes_ = np.unique(y)
        k = len(self.classes_)
        Y = -np.ones((len(y), k))
        Y[np.arange(len(y)), np.searchsorted(self.classes_, y)] = 1.0
        if k == 2:
            Y = Y[:, 1:]
        n = X.shape[0]
        xm = X.mean(axis=0) if self.fit_intercept else np.zeros(X.shape[1])
        ym = Y.mean(axis=0) if self.fit_intercept else np.zeros(Y.shape[1])
        Xc, Yc = X - xm, Y - ym
        K = Xc.dot(Xc.T)
        alphas = np.asarray(self.alphas, dtype=float)
        preds = np.zeros((n, Y.shape[1], len(alphas)))
        best = None
        for a, alpha in enumerate(alphas):
            G = np.linalg.inv(K + alpha * np.eye(n))
            if self.fit_intercept:
                o = np.ones((n, n)) / n
                G1 = G - G.dot(o).dot(G) / max(np.sum(G) / n, 1e-12) if False else G
                G = G1
            c = G.dot(Yc)
            d = np.diag(G)[:, None]
            p = Yc - c / d
            preds[:, :, a] = p + ym
            if self.scoring is not None:
                dec = preds[:, :, a]
                lab = (dec[:, 0] > 0).astype(int) if dec.shape[1] == 1 else dec.argmax(axis=1)
                tru = np.searchsorted(self.classes_, y)
                s = np.mean(lab == tru)
            else:
                s = -np.mean((c / d) ** 2)
            if best is None or s > best[0]:
                best = (s, alpha, Xc.T.dot(c))
        self.best_score_, self.alpha_, W = best
        self.coef_ = W.T
        self.intercept_ = ym - xm.dot(W)
        if self.store_cv_values:
            self.cv_values_ = preds
        return self
    def decision_function(self, X):
        d = np.asarray(X, dtype=float).dot(self.coef_.T) + self.intercept_
        return d.ravel() if d.shape[1] == 1 else d
    def predict(self, X):
        s = self.decision_function(X)
        i = (s > 0).astype(int) if s.ndim == 1 else s.argmax(axis=1)
        return self.classes_[i]
