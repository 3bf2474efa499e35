import inspect
class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        sig = inspect.signature(cls.__init__)
        return sorted(p.name for p in sig.parameters.values()
                      if p.name != 'self' and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL))
    def get_params(self, deep=True):
        return {k: getattr(self, k) for k in self._get_param_names()}
    def set_params(self, **params):
        for k, v in params.items():
            setattr(self, k, v)
        return self
class TransformerMixin:
    def fit_transform(self, X, y=None, **fp):
        if y is None:
            return self.fit(X, **fp).transform(X)
        return self.fit(X, y, **fp).transform(X)
class ClassifierMixin:
    def score(self, X, y, sample_weight=None):
        from .metrics import accuracy_score
        return accuracy_score(y, self.predict(X))
