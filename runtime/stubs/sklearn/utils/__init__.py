import numpy as np
from .validation import check_random_state
RESAMPLE_LOG = []
def resample(*arrays, replace=True, n_samples=None, random_state=None, stratify=None):
    """Bootstrap / subsample of the first axis.  The stratified draw is simplified: one uniform draw."""
    RESAMPLE_LOG.append(random_state)
    rng = check_random_state(random_state)
    n = len(arrays[0])
    m = n if n_samples is None else n_samples
    if not replace and m > n:
        raise ValueError("Cannot sample {} out of arrays with dim {} when replace is False".format(m, n))
    idx = rng.randint(0, n, size=m) if replace else rng.permutation(n)[:m]
    out = [np.asarray(a)[idx] for a in arrays]
    return out[0] if len(out) == 1 else out
