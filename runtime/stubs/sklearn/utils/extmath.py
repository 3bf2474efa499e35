import numpy as np
def softmax(X, copy=True):
    X = np.array(X, dtype=float)
    X -= X.max(axis=1)[:, None]
    np.exp(X, X)
    return X / X.sum(axis=1)[:, None]
