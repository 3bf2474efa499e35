import numpy as np
def accuracy_score(y_true, y_pred):
    y_true, y_pred = np.asarray(y_true).ravel(), np.asarray(y_pred).ravel()
    if y_true.shape != y_pred.shape:
        raise ValueError("Found input variables with inconsistent numbers of samples")
    if y_true.dtype.kind != y_pred.dtype.kind and 'U' in (y_true.dtype.kind, y_pred.dtype.kind):
        raise ValueError("Labels in y_true and y_pred should be of the same type")
    return float(np.mean(y_true == y_pred)) if len(y_true) else 0.0
def f1_score(*a, **k):
    raise NotImplementedError
def make_scorer(f, **k):
    return lambda est, X, y: f(y, est.predict(X))
