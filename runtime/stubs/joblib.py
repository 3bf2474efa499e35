def delayed(f):
    return lambda *a, **k: (f, a, k)
class Parallel:
    order = None      # set to a function over indices to run the calls in another order
    def __init__(self, n_jobs=None, **k):
        self.n_jobs = n_jobs
    def __call__(self, it):
        calls = list(it)
        idx = list(range(len(calls)))
        if Parallel.order is not None:
            idx = Parallel.order(idx)
        out = {}
        for i in idx:
            f, a, k = calls[i]
            out[i] = f(*a, **k)
        return [out[i] for i in range(len(calls))]
