"""Shared helpers of the run-time contract checks: data, configurations, independent oracles.

Runs under the interpreter that holds numpy/pandas for the repository (/opt/venv/bin/python), with
/verif/runtime/stubs standing in for the libraries that are not installed (numba, sklearn, scipy, ...).
The code under test is always the real source of the repository at $CDV_REPO (default /repo).
"""
import os, sys, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CDV_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'stubs'), REPO]
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
import importlib

class Bad(Exception):
    """The property does not hold on this input."""

def bad(msg, *a):
    raise Bad(msg.format(*a) if a else msg)

VARIANTS = ('US', 'MS', 'UV', 'MV')
MODS = {'US': '_univariate_same_length', 'MS': '_multivariate_same_length',
        'UV': '_univariate_variable_length', 'MV': '_multivariate_variable_length'}
PREF = {'US': 'U_SL', 'MS': 'M_SL', 'UV': 'U_VL', 'MV': 'M_VL'}
TYPE = {'US': 'univariate', 'MS': 'multivariate', 'UV': 'univariate_variable', 'MV': 'multivariate_variable'}

def mod(v):
    return importlib.import_module('convst.transformers.' + MODS[v])

def guarded(f, *a, **k):
    """Call into the code under test: an exception it should not raise is a violation."""
    try:
        return f(*a, **k)
    except Bad:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in reversed(tb):
            if REPO in fr.filename:
                where = ' at {}:{} {}'.format(os.path.relpath(fr.filename, REPO), fr.lineno, fr.line)
                break
        bad('unexpected {}: {}{}'.format(type(e).__name__, str(e)[:200], where))

# ------------------------------------------------------------------ data
def raw_series(rs, ft, t, kind):
    if kind == 'int':
        return rs.randint(-3, 4, size=(ft, t)).astype(float)
    if kind == 'bigint':
        return rs.randint(-50, 51, size=(ft, t)).astype(float)
    if kind == 'float':
        return rs.normal(size=(ft, t))
    if kind == 'walk':
        return np.cumsum(rs.normal(size=(ft, t)), axis=1)
    if kind == 'tiny':
        return rs.randint(-3, 4, size=(ft, t)) * 1e-8
    if kind == 'const':
        x = rs.randint(-3, 4, size=(ft, t)).astype(float)
        for c in range(ft):
            a = rs.randint(0, t)
            x[c, a:a + t // 2 + 1] = 2.0
        return x
    if kind == 'periodic':
        p = rs.randint(2, 5)
        return np.tile(rs.randint(-3, 4, size=(ft, p)), (1, t // p + 1))[:, :t].astype(float)
    if kind == 'mixed':
        return rs.normal(size=(ft, t)) * np.array([10.0 ** (3 * c) for c in range(ft)])[:, None]
    raise ValueError(kind)

KINDS = ('int', 'float', 'const', 'walk', 'periodic', 'tiny', 'bigint')

def make_data(v, n, ft, t, seed, kind='int', tmin=None):
    """A training set for variant v: 3D array or list of 2D arrays."""
    rs = np.random.RandomState(seed)
    if v in ('US', 'UV'):
        ft = 1
    if v in ('US', 'MS'):
        return np.array([raw_series(rs, ft, t, kind) for _ in range(n)])
    tmin = t if tmin is None else tmin
    ls = [int(rs.randint(tmin, t + 1)) for _ in range(n)]
    ls[rs.randint(0, n)] = tmin
    return [raw_series(rs, ft, l, kind) for l in ls]

def make_y(n, k, seed, labels=None):
    rs = np.random.RandomState(seed + 991)
    y = np.array([i % k for i in range(n)])
    rs.shuffle(y)
    return y if labels is None else np.array(labels)[y]

def series(X):
    return [np.asarray(X[i], dtype=float) for i in range(len(X))]

def make_est(c, v=None, **over):
    from convst.transformers import R_DST
    kw = dict(n_shapelets=c.get('ns', 8), alpha=c.get('alpha', 0.5), proba_norm=c.get('pn', 0.5),
              shapelet_lengths=c.get('ls', [5]), phase_invariance=c.get('phase', False),
              prime_dilations=c.get('prime', False), percentiles=c.get('pc', [5, 10]),
              random_state=c.get('rs', 0), transform_type=c.get('tt', 'auto'),
              max_channels=c.get('mc'), min_len=c.get('ml'), n_samples=c.get('nsamp'))
    if 'bounds' in c:
        kw['shapelet_lengths_bounds'] = c['bounds']
    if 'red' in c:
        kw['lengths_bounds_reduction'] = c['red']
    kw.update(over)
    return R_DST(**kw)

# ------------------------------------------------------------------ oracles
EPS = 1e-8
def zn(w):
    w = np.asarray(w, dtype=float)
    m = sum(w.tolist()) / len(w)
    s = (sum(((w - m) ** 2).tolist()) / len(w)) ** 0.5
    return (w - m) / (s + EPS)

def positions(n, l, d, phase):
    if phase:
        return [[(i + j * d) % n for j in range(l)] for i in range(n)]
    return [[i + j * d for j in range(l)] for i in range(n - (l - 1) * d)]

def dist_vector(chans, vals, l, d, norm, phase):
    """chans: list of 1D series (the shapelet's channels), vals: list of value rows."""
    n = len(chans[0])
    out = []
    for pos in positions(n, l, d, phase):
        s = 0.0
        for x, v in zip(chans, vals):
            w = x[pos]
            if norm:
                w = zn(w)
            for a, b in zip(w.tolist(), v.tolist()):
                s += abs(a - b)
        out.append(s)
    return np.array(out)

def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * (1.0 + abs(a) + abs(b))

def unpack(shp, v):
    """Fitted set -> list of dicts (values rows, channels, l, d, thr, norm)."""
    out = []
    if v in ('US', 'UV'):
        values, lengths, dilations, thr, norm = shp
        for i in range(len(lengths)):
            l = int(lengths[i])
            out.append(dict(vals=[np.asarray(values[i, :l])], ch=[0], l=l, d=int(dilations[i]),
                            thr=float(thr[i]), norm=bool(norm[i])))
    else:
        values, lengths, dilations, thr, norm, nch, chid = shp
        a = b = 0
        for i in range(len(lengths)):
            l, m = int(lengths[i]), int(nch[i])
            vs = np.asarray(values[a:a + l * m])
            if len(vs) != l * m or len(chid[b:b + m]) != m:
                bad('shapelet {}: flat arrays too short (values {}, channels {})', i, len(values), len(chid))
            out.append(dict(vals=[vs[k * l:(k + 1) * l] for k in range(m)], ch=[int(q) for q in chid[b:b + m]],
                            l=l, d=int(dilations[i]), thr=float(thr[i]), norm=bool(norm[i])))
            a += l * m; b += m
    return out

def pack(items, v):
    """Inverse of unpack, in the layout the fitters use."""
    L = np.array([s['l'] for s in items], dtype=np.int64)
    D = np.array([s['d'] for s in items], dtype=np.int64)
    T = np.array([s['thr'] for s in items], dtype=float)
    N = np.array([s['norm'] for s in items], dtype=bool)
    if v in ('US', 'UV'):
        V = np.zeros((len(items), int(L.max())))
        for i, s in enumerate(items):
            V[i, :s['l']] = s['vals'][0]
        return (V, L, D, T, N)
    C = np.array([len(s['ch']) for s in items], dtype=np.int64)
    V = np.concatenate([np.concatenate(s['vals']) for s in items]).astype(float)
    I = np.concatenate([np.array(s['ch'], dtype=np.int64) for s in items])
    return (V, L, D, T, N, C, I)

def check_features(dist, feats, thr, exact, what, windows=None):
    """The three features against an independently computed distance vector.
    windows: one key per position; equal keys mean equal points, hence equal distances whatever the rounding."""
    tol = 0.0 if exact else 1e-6 * (1.0 + float(np.max(np.abs(dist))))
    m, am, cnt = [float(q) for q in feats]
    mn = float(dist.min())
    if not abs(m - mn) <= tol:
        bad('{}: minimum {} instead of {}', what, m, mn)
    if am != int(am) or not 0 <= int(am) < len(dist):
        bad('{}: argmin {} is not a position of the distance vector (length {})', what, am, len(dist))
    am = int(am)
    if dist[am] > mn + tol:
        bad('{}: argmin {} has distance {} but the minimum is {}', what, am, dist[am], mn)
    for i in range(am):
        if (dist[i] <= mn) if exact else (dist[i] < mn - tol or (windows is not None and windows[i] == windows[am])):
            bad('{}: argmin {} but position {} already has distance {}', what, am, i, dist[i])
    lo = int(np.sum(dist < thr - tol)) if not exact else int(np.sum(dist <= thr))
    hi = int(np.sum(dist <= thr + tol))
    if not lo <= cnt <= hi:
        bad('{}: {} occurrences, expected {} positions at distance <= {}', what, cnt, lo if lo == hi else (lo, hi), thr)

def chans_of(x, s):
    return [x[c] for c in s['ch']]

def genuine_sources(s, Xs, phase, tol=1e-7):
    """All (series, start) whose subsequence equals the shapelet on all its channels."""
    out = []
    for k, x in enumerate(Xs):
        if max(s['ch']) >= x.shape[0]:
            continue
        n = x.shape[1]
        for i, pos in enumerate(positions(n, s['l'], s['d'], phase)):
            ok = True
            for c, v in zip(s['ch'], s['vals']):
                w = x[c][pos]
                if s['norm']:
                    w = zn(w)
                    same = np.all(np.abs(w - v) <= tol * (1 + np.abs(w) + np.abs(v)))
                else:
                    same = np.all(np.abs(w - v) <= 1e-12 * np.abs(w))
                if not same:
                    ok = False
                    break
            if ok:
                out.append((k, i))
    return out

def percentile(d, p):
    """Linear-interpolation percentile, written out."""
    a = sorted(float(q) for q in d)
    r = (len(a) - 1) * p / 100.0
    f = int(np.floor(r)); g = min(f + 1, len(a) - 1)
    return a[f] + (a[g] - a[f]) * (r - f)
