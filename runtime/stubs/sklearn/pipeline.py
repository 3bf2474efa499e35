class Pipeline:
    def __init__(self, steps):
        self.steps = steps
    def __getitem__(self, k):
        if isinstance(k, str):
            return dict(self.steps)[k]
        return self.steps[k][1]
    def _before(self, X):
        for _, s in self.steps[:-1]:
            X = s.transform(X)
        return X
    def fit(self, X, y=None):
        for _, s in self.steps[:-1]:
            if hasattr(s, 'fit_transform'):
                X = s.fit_transform(X, y)
            else:
                X = s.fit(X, y).transform(X)
        self.steps[-1][1].fit(X, y)
        return self
    def predict(self, X):
        return self.steps[-1][1].predict(self._before(X))
    def predict_proba(self, X):
        return self.steps[-1][1].predict_proba(self._before(X))
    def decision_function(self, X):
        return self.steps[-1][1].decision_function(self._before(X))
    def transform(self, X):
        return self.steps[-1][1].transform(self._before(X))
def make_pipeline(*steps):
    seen, out = {}, []
    names = [type(s).__name__.lower() for s in steps]
    for n, s in zip(names, steps):
        if names.count(n) > 1:
            seen[n] = seen.get(n, 0) + 1
            n = '{}-{}'.format(n, seen[n])
        out.append((n, s))
    return Pipeline(out)
