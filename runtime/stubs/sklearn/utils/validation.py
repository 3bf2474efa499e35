import numbers
import numpy as np
from ..exceptions import NotFittedError
def check_random_state(seed):
    if seed is None or seed is np.random:
        return np.random.mtrand._rand
    if isinstance(seed, numbers.Integral):
        return np.random.RandomState(seed)
    if isinstance(seed, np.random.RandomState):
        return seed
    raise ValueError("%r cannot be used to seed a numpy.random.RandomState instance" % seed)
def check_is_fitted(est, attributes=None, **k):
    if isinstance(attributes, str):
        attributes = [attributes]
    ok = all(hasattr(est, a) for a in attributes) if attributes else any(
        v.endswith('_') and not v.startswith('__') for v in vars(est))
    if not ok:
        raise NotFittedError("This %s instance is not fitted yet." % type(est).__name__)
