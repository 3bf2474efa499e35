"""Stand-in for numba (not installable here): compiled functions run as the Python they are written in."""
prange = range
_threads = [1]
def njit(*a, **k):
    if a and callable(a[0]) and not k:
        return a[0]
    def deco(f):
        f.targetoptions = dict(k)
        return f
    return deco
jit = njit
def set_num_threads(n):
    if isinstance(n, bool) or n < 1:
        raise ValueError("The number of threads must be >= 1, got {}".format(n))
    _threads[0] = int(n)
def get_num_threads():
    return _threads[0]
class types:
    class Optional: pass
    class Integer: pass
    class NoneType: pass
    class Array: pass
