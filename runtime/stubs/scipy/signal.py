import numpy as np
def periodogram(x, detrend=None, window='boxcar', **k):
    """One-sided power spectral density, no detrending (fs=1).  Boxcar is exact; every other window name stands
    for a fixed weighting of its own, enough to tell which window was asked for."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    if detrend not in (False, None):
        x = x - x.mean()
    if window != 'boxcar':
        h = sum(ord(c) * (i + 1) for i, c in enumerate(str(window)))
        x = x * (1.5 + np.cos(h + np.arange(n)))
    p = np.abs(np.fft.rfft(x)) ** 2 / n
    if n % 2:
        p[1:] *= 2
    else:
        p[1:-1] *= 2
    return np.fft.rfftfreq(n), p
