"""Run-time contracts of C01-C09, C21: the compiled kernels and the sampler."""
from common import *
import itertools

# ------------------------------------------------------------------ case generation
def g_fit(rng, v=None, kinds=KINDS, small=False):
    v = v or rng.choice(VARIANTS)
    phase = bool(rng.randint(0, 2))
    t = int(rng.randint(4, 13 if small else 31))
    tmin = int(rng.randint(max(3, t // 2), t + 1))
    m = tmin if v[1] == 'V' else t
    nl = int(rng.randint(1, 4))
    ls = sorted(set(int(rng.randint(2, m + 1)) for _ in range(nl)))
    ft = int(rng.randint(1, 5)) if v[0] == 'M' else 1
    n = int(rng.randint(1, 8))
    k = int(rng.randint(1, min(n, 3) + 1))
    return dict(v=v, n=n, ft=ft, t=t, tmin=tmin, k=k, kind=str(rng.choice(kinds)), seed=int(rng.randint(0, 10**6)),
                rs=int(rng.randint(0, 10**6)), ns=int(rng.randint(1, 13)), ls=ls, phase=phase,
                prime=bool(rng.randint(0, 2)), alpha=float(rng.choice([0.0, 0.1, 0.3, 0.5, 0.75, 1.0])),
                pn=float(rng.choice([0.0, 0.5, 0.8, 1.0])), tt=TYPE[v],
                mc=(int(rng.randint(1, ft + 1)) if v[0] == 'M' and rng.randint(0, 2) else None),
                pc=[[5, 10], [0, 0], [0, 100], [50, 50], [90, 100], [2.5, 40.0]][rng.randint(0, 6)])

def data_of(c):
    return make_data(c['v'], c['n'], c['ft'], c['t'], c['seed'], c['kind'], c['tmin'])

def fit_of(c, X=None, y=None, **over):
    X = data_of(c) if X is None else X
    y = make_y(c['n'], c['k'], c['seed']) if y is None else y
    est = guarded(make_est, c, **over)
    guarded(est.fit, X, y)
    return est, X, y

def gmin(c):
    return c['tmin'] if c['v'][1] == 'V' else c['t']

# ------------------------------------------------------------------ C01
def g_c01(rng):
    c = g_fit(rng, small=rng.randint(0, 3) > 0)
    c['nshp'] = int(rng.randint(1, 9)); c['sseed'] = int(rng.randint(0, 10**6))
    return c

def rand_items(c, X, rs, only=None):
    """A shapelet set with arbitrary parameters (not only fitted ones)."""
    m = gmin(c)
    items = []
    exactk = c['kind'] in ('int', 'bigint', 'const', 'periodic')
    for _ in range(c['nshp']):
        l = int(rs.choice(c['ls'])) if rs.randint(0, 3) else int(rs.randint(2, m + 1))
        d = int(rs.randint(1, (m - 1) // (l - 1) + 1))
        if items and rs.randint(0, 3) == 0:
            l, d = items[-1]['l'], items[-1]['d']
        norm = bool(rs.randint(0, 2)) if c['pn'] not in (0.0, 1.0) else c['pn'] == 1.0
        ch = [0] if c['v'][0] == 'U' else [int(q) for q in rs.permutation(c['ft'])[:rs.randint(1, c['ft'] + 1)]]
        x = np.asarray(X[rs.randint(0, len(X))], dtype=float)
        pos = positions(x.shape[1], l, d, c['phase'])
        p = pos[rs.randint(0, len(pos))]
        vals = []
        for q in ch:
            w = x[q][p].copy()
            if rs.randint(0, 2):
                w = w + rs.randint(-1, 2, size=l)
            vals.append(zn(w) if norm else w)
        s = dict(vals=vals, ch=ch, l=l, d=d, norm=norm, thr=0.0)
        dv = dist_vector(chans_of(x, s), vals, l, d, norm, c['phase'])
        s['thr'] = float(dv[rs.randint(0, len(dv))]) if not norm and exactk else float(np.median(dv))
        if norm:
            srt = np.sort(dv); q = rs.randint(0, len(srt))
            s['thr'] = float((srt[q] + srt[min(q + 1, len(srt) - 1)]) / 2)
        items.append(s)
    return items

def check_transform(c, est, X, items):
    before = [np.array(a, copy=True) for a in est.shapelets_]
    out = guarded(est.transform, X)
    Xs = series(X)
    if out.shape != (len(Xs), 3 * len(items)):
        bad('transform has shape {} for {} series and {} shapelets', out.shape, len(Xs), len(items))
    exactk = c['kind'] in ('int', 'bigint', 'const', 'periodic')
    for i, x in enumerate(Xs):
        for r, s in enumerate(items):
            dv = dist_vector(chans_of(x, s), s['vals'], s['l'], s['d'], s['norm'], c['phase'])
            check_features(dv, out[i, 3 * r:3 * r + 3], s['thr'], exactk and not s['norm'],
                           'series {} shapelet {} (l={} d={} norm={} channels={})'.format(i, r, s['l'], s['d'], s['norm'], s['ch']),
                           [b''.join(ch[p_].tobytes() for ch in chans_of(x, s)) for p_ in positions(len(x[0]), s['l'], s['d'], c['phase'])])
    for a, b in zip(before, est.shapelets_):
        if not np.array_equal(a, b):
            bad('transform modified the fitted shapelets')
    return out

def r_c01(c):
    est, X, y = fit_of(c)
    fitted = unpack(est.shapelets_, c['v'])
    rs = np.random.RandomState(c['sseed'])
    if fitted:
        check_transform(c, est, X, fitted)
    items = rand_items(c, X, rs)
    est.shapelets_ = pack(items, c['v'])
    check_transform(c, est, X, items)
    from convst.transformers import _commons as C
    x = np.asarray(X[0], dtype=float)
    for s in items[:2]:
        dv = guarded(C.compute_shapelet_dist_vector, x[s['ch'][0]], s['vals'][0], s['l'], s['d'], s['norm'], c['phase'])
        ref = dist_vector([x[s['ch'][0]]], s['vals'][:1], s['l'], s['d'], s['norm'], c['phase'])
        if dv.shape != ref.shape or not np.all(np.abs(dv - ref) <= 1e-6 * (1 + np.abs(ref).max())):
            bad('distance vector {} instead of {}', dv, ref)
    return len({(s['l'], s['d']) for s in items}) > 1 or len({s['norm'] for s in items}) > 1

# ------------------------------------------------------------------ C02
def g_c02(rng):
    c = g_fit(rng, small=rng.randint(0, 2) == 0)
    m = gmin(c)
    j = rng.randint(0, 7)
    if j == 0: c['ls'] = [m]
    elif j == 1: c['ls'] = [2]
    elif j == 2: c['ls'] = [2, m]
    elif j == 3: c['ns'] = 60; c['alpha'] = 0.0
    elif j == 4: c['n'], c['k'] = 1, 1
    elif j == 5:
        c['t'] = c['tmin'] = 3; c['ls'] = [int(rng.choice([2, 3, 11]))]
    elif j == 6: c['ls'] = [11, 4]; c['pn'] = float(rng.choice([0.0, 1.0]))
    return c

def r_c02(c):
    est, X, y = fit_of(c)
    out = guarded(est.transform, X)
    its = unpack(est.shapelets_, c['v'])
    if out.shape != (len(X), 3 * len(its)):
        bad('transform has shape {} for {} series and {} shapelets', out.shape, len(X), len(its))
    if not np.all(np.isfinite(out)):
        bad('transform returned non-finite features')
    m = gmin(c)
    for i, s in enumerate(its):
        if (s['l'] - 1) * s['d'] > m - 1 or s['l'] < 2 or s['d'] < 1:
            bad('shapelet {} of length {} and dilation {} spans more than the {} timestamps', i, s['l'], s['d'], m)
        if c['v'][0] == 'M' and not all(0 <= q < c['ft'] for q in s['ch']):
            bad('shapelet {} uses channels {} of {}', i, s['ch'], c['ft'])
    return True

# ------------------------------------------------------------------ C03
def r_c03(c):
    est, X, y = fit_of(c)
    its = unpack(est.shapelets_, c['v'])
    if not its:
        return False
    base = guarded(est.transform, X)
    rs = np.random.RandomState(c['seed'] + 5)
    sel = lambda idx: X[np.array(idx)] if isinstance(X, np.ndarray) else [X[i] for i in idx]
    tol = lambda a, b: np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(a)))
    for i in range(len(X)):
        alone = guarded(est.transform, sel([i]))
        if not tol(alone[0], base[i]):
            bad('series {} transformed alone gives {} but {} in the batch', i, alone[0], base[i])
    perm = [int(q) for q in rs.permutation(len(X))] + [int(rs.randint(0, len(X)))]
    out = guarded(est.transform, sel(perm))
    for a, i in enumerate(perm):
        if not tol(out[a], base[i]):
            bad('series {} at position {} of another batch gives {} instead of {}', i, a, out[a], base[i])
    if c['v'][1] == 'V':
        longer = np.asarray(raw_series(rs, np.asarray(X[0]).shape[0], c['t'] + int(rs.randint(1, 9)), 'int')) + 1e6
        for batch, off in (([longer] + list(X), 1), (list(X) + [longer - 2e6], 0)):
            out = guarded(est.transform, batch)
            for i in range(len(X)):
                if not tol(out[i + off], base[i]):
                    bad('series {} padded by a longer neighbour gives {} instead of {}', i, out[i + off], base[i])
        s0 = [x for x in X if np.asarray(x).shape[1] == np.asarray(X[0]).shape[1]]
        sv = {'UV': 'US', 'MV': 'MS'}[c['v']]
        e2 = make_est(dict(c, tt=TYPE[sv], ls=[2]))
        A = np.array([np.asarray(q) for q in s0])
        if A.shape[2] > 2:
            guarded(e2.fit, A, np.zeros(len(A), dtype=int))
            e2.shapelets_ = est.shapelets_
            out = guarded(e2.transform, A)
            if not tol(out[0], base[0]):
                bad('equal length path gives {} and variable length path {}', out[0], base[0])
    return len(X) > 1

# ------------------------------------------------------------------ C04 / C05 / C09
def r_c04(c):
    est, X, y = fit_of(c)
    Xs = series(X)
    for i, s in enumerate(unpack(est.shapelets_, c['v'])):
        if not genuine_sources(s, Xs, c['phase']):
            bad('shapelet {} (length {}, dilation {}, norm {}, channels {}, values {}) is no subsequence of any training series',
                i, s['l'], s['d'], s['norm'], s['ch'], [v.tolist() for v in s['vals']])
    return len(est.shapelets_[1]) > 0

def g_c04(rng):
    return g_fit(rng, kinds=('float', 'float', 'walk', 'int', 'tiny', 'mixed'))

def r_c05(c):
    est, X, y = fit_of(c)
    Xs = series(X)
    nt = False
    for i, s in enumerate(unpack(est.shapelets_, c['v'])):
        src = genuine_sources(s, Xs, c['phase'])
        if not src:
            continue            # decided by C04
        ok, seen = False, []
        for k in sorted({k for k, _ in src}):
            oth = [q for q in range(len(Xs)) if y[q] == y[k] and q != k] or [k]
            nt = nt or oth != [k]
            for q in oth:
                dv = dist_vector(chans_of(Xs[q], s), s['vals'], s['l'], s['d'], s['norm'], c['phase'])
                lo, hi = percentile(dv, c['pc'][0]), percentile(dv, c['pc'][1])
                tol = 1e-7 * (1 + abs(lo) + abs(hi))
                seen.append((k, q, lo, hi))
                if lo - tol <= s['thr'] <= hi + tol:
                    ok = True
        if not ok:
            bad('shapelet {}: threshold {} outside the percentiles {} of every same-class sample (source, other, low, high): {}',
                i, s['thr'], c['pc'], seen[:4])
    return nt

def g_c05(rng):
    c = g_fit(rng, kinds=('float', 'walk', 'mixed'))
    c['k'] = int(rng.randint(1, 4)); c['n'] = int(c['k'] * rng.randint(1, 4))
    c['pc'] = [[5, 10], [50, 50], [0, 0], [40, 60], [90, 100], [100, 100], [2.5, 40.0]][rng.randint(0, 7)]
    return c

def g_c09(rng):
    c = g_fit(rng, kinds=('float', 'int', 'const', 'periodic'))
    if rng.randint(0, 2):
        c['ns'] = int(rng.randint(20, 50)); c['t'] = int(rng.randint(4, 9)); c['tmin'] = min(c['tmin'], c['t'])
        c['tmin'] = max(3, c['tmin']); c['n'] = int(rng.randint(1, 3)); c['k'] = 1
        c['alpha'] = float(rng.choice([0.0, 0.1, 0.5]))
        m = gmin(c); c['ls'] = sorted(set(int(rng.randint(2, m + 1)) for _ in range(3)))
    if rng.randint(0, 5) == 0:
        c['kind'] = 'zeros'
    return c

def r_c09(c):
    if c['kind'] == 'zeros':
        X = data_of(dict(c, kind='int'))
        X = X * 0 if isinstance(X, np.ndarray) else [x * 0 for x in X]
        X[0][:, 0] = 1.0
        est, X, y = fit_of(c, X=X)
    else:
        est, X, y = fit_of(c)
    shp = est.shapelets_
    n = len(shp[1])
    if n > c['ns']:
        bad('{} shapelets for {} requested', n, c['ns'])
    idx = [2, 3, 4] + ([5] if c['v'][0] == 'M' else [])
    for j in idx:
        if len(shp[j]) != n:
            bad('array {} of the fitted set has {} entries for {} shapelets', j, len(shp[j]), n)
    if np.asarray(shp[4]).dtype != bool:
        bad('normalisation flags have dtype {}', np.asarray(shp[4]).dtype)
    if c['pn'] == 1.0 and not np.all(shp[4]) or c['pn'] == 0.0 and np.any(shp[4]):
        bad('normalisation flags {} for probability {}', shp[4], c['pn'])
    if not all(int(l) in c['ls'] for l in shp[1]):
        bad('lengths {} not all among the allowed {}', shp[1], c['ls'])
    Xs = series(X)
    if c['v'][0] == 'U':
        if len(shp[0]) != n:
            bad('{} value rows for {} shapelets', len(shp[0]), n)
    else:
        mc = c['mc'] or c['ft']
        nch = np.asarray(shp[5])
        if not np.all((nch >= 1) & (nch <= mc)):
            bad('channel counts {} outside 1..{}', nch, mc)
        if len(shp[6]) != int(nch.sum()):
            bad('{} channel ids for {} channels', len(shp[6]), nch.sum())
        if len(shp[0]) != int((nch * shp[1]).sum()):
            bad('{} values for a total size of {}', len(shp[0]), (nch * shp[1]).sum())
    items = unpack(shp, c['v'])
    for i, s in enumerate(items):
        if c['v'][0] == 'M' and (len(set(s['ch'])) != len(s['ch']) or not all(0 <= q < c['ft'] for q in s['ch'])):
            bad('shapelet {} has channels {}', i, s['ch'])
        if c['v'][0] == 'U' and np.all(s['vals'][0] == 0):
            bad('shapelet {} has no values', i)
        src = genuine_sources(s, Xs, c['phase'])
        if not src:
            bad('shapelet {} (length {}, dilation {}, channels {}) lost its own values', i, s['l'], s['d'], s['ch'])
        mx = max(float(dist_vector(chans_of(x, s), s['vals'], s['l'], s['d'], s['norm'], c['phase']).max()) for x in Xs)
        if not -1e-9 <= s['thr'] <= mx * (1 + 1e-7) + 1e-7:
            bad('shapelet {}: threshold {} is not a distance (max {})', i, s['thr'], mx)
    return n < c['ns'] or len(set(int(l) for l in shp[1])) > 1

# ------------------------------------------------------------------ C06
def naive_prime(n):
    return n == 1 or (n > 1 and all(n % q for q in range(2, n)))

def g_c06(rng):
    j = rng.randint(0, 4)
    if j == 0:
        return dict(what='primes', n=int(rng.randint(0, 400)))
    if j == 1:
        return dict(what='choice', n=int(rng.randint(1, 13)), seed=int(rng.randint(0, 10**6)))
    c = g_fit(rng)
    c['ns'] = 15
    if j == 2:
        l = int(rng.choice([2, 3, 4]))
        q = int(rng.choice([1, 2, 3, 4, 5, 5, 7, 11, 13]))         # the largest admissible dilation
        c.update(t=max(3, (l - 1) * q + 1), prime=True, ls=[l], ns=500, n=3, k=1, alpha=0.0, kind='float', what='all')
        c['tmin'] = c['t']
        return c
    c['what'] = 'fit'
    return c

def x_c06():
    yield dict(what='primes', n=0)
    for n in (1, 2, 3, 4, 8, 9, 24, 25, 26, 48, 49, 120, 121, 168, 169, 360, 361):
        yield dict(what='primes', n=n)
    yield dict(what='single', lo=1, hi=3000)

def r_c06(c):
    from convst.transformers import _commons as C
    if c['what'] == 'primes':
        got = [int(q) for q in guarded(C.prime_up_to, c['n'])]
        ref = [q for q in range(c['n'] + 1) if naive_prime(q)]
        if got != ref:
            bad('prime_up_to({}) differs from the admissible numbers by {}', c['n'], sorted(set(got) ^ set(ref)) or 'order')
        return True
    if c['what'] == 'single':
        for q in range(c['lo'], c['hi']):
            if bool(guarded(C.is_prime, q)) != naive_prime(q):
                bad('is_prime({}) is {}', q, C.is_prime(q))
        for q in (7919, 7919 * 7919, 104729, 10007 * 10009, 10007 * 10007, 2 * 10007, 3 * 10007):
            if bool(C.is_prime(q)) != (q in (7919, 104729)):
                bad('is_prime({}) is {}', q, C.is_prime(q))
        return True
    if c['what'] == 'choice':
        np.random.seed(c['seed'])
        got = guarded(C.choice_log, c['n'], 4000)
        if len(got) != 4000 or set(int(q) for q in got) != set(range(c['n'])):
            bad('choice_log({}) draws {}', c['n'], sorted(set(int(q) for q in got)))
        return c['n'] > 1
    est, X, y = fit_of(c)
    m = gmin(c)
    ds = {}
    for i, s in enumerate(unpack(est.shapelets_, c['v'])):
        if s['d'] < 1 or (s['l'] - 1) * s['d'] > m - 1:
            bad('shapelet {}: dilation {} with length {} on series of {} timestamps', i, s['d'], s['l'], m)
        if c['prime'] and not naive_prime(s['d']):
            bad('shapelet {}: dilation {} is not prime', i, s['d'])
        ds.setdefault(s['l'], set()).add(s['d'])
    if c['what'] == 'all' and len(est.shapelets_[1]) == c['ns']:
        for l in c['ls']:
            q = (m - 1) // (l - 1)
            small = {d for d in range(1, q + 1) if naive_prime(d)}
            if len(ds.get(l, ())) and not small <= ds[l]:
                bad('dilations {} never drawn in {} shapelets for length {}', small - ds[l], c['ns'], l)
    return True

# ------------------------------------------------------------------ C07
class Perm:
    """prange whose iterations run in another order."""
    def __init__(self, how):
        self.how = how
    def __call__(self, *a):
        r = list(range(*a))
        if self.how == 'rev':
            r.reverse()
        elif self.how == 'inter':
            r = r[1::2] + r[0::2]
        elif self.how == 'rot':
            r = r[len(r) // 2:] + r[:len(r) // 2]
        return r

def det_choice(a, size=None, replace=True):
    a = np.arange(a) if np.isscalar(a) else np.asarray(a)
    h = int(np.sum((np.asarray(a, dtype=float) + 1) * (np.arange(len(a)) + 3))) if len(a) else 0
    if size is None:
        return a[h % len(a)]
    if not replace:
        return np.array([a[(h + q) % len(a)] for q in range(size)])
    return np.array([a[(h + 7 * q * q) % len(a)] for q in range(size)])

def det_log(n, k):
    return np.array([(5 * n + 3 * q) % n for q in range(k)], dtype=np.int64)

def det_uniform(a, b, size=None):
    return a + (b - a) * 0.625

class patched:
    def __init__(self, m, **kw):
        self.m, self.kw, self.old = m, kw, {}
    def __enter__(self):
        for k, v in self.kw.items():
            if hasattr(self.m, k):
                self.old[k] = getattr(self.m, k)
                setattr(self.m, k, v)
    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)

def same(a, b):
    return len(a) == len(b) and all(np.asarray(p).shape == np.asarray(q).shape and
                                    np.allclose(np.asarray(p, dtype=float), np.asarray(q, dtype=float), 1e-9, 1e-12) for p, q in zip(a, b))

def r_c07(c):
    M = mod(c['v'])
    c = dict(c, kind='float' if c['kind'] == 'const' else c['kind'])
    with patched(M, choice=det_choice, uniform=det_uniform, choice_log=det_log):
        est, X, y = fit_of(c)
    ref_s = est.shapelets_
    ref_t = guarded(est.transform, X)
    for how in ('rev', 'inter', 'rot'):
        with patched(M, prange=Perm(how)):
            out = guarded(est.transform, X)
        if not same([out], [ref_t]):
            bad('transform depends on the order of the parallel iterations ({}): {} instead of {}', how, out, ref_t)
        with patched(M, prange=Perm(how), choice=det_choice, uniform=det_uniform, choice_log=det_log):
            e2, _, _ = fit_of(c)
        if not same(e2.shapelets_, ref_s):
            bad('the fitted set depends on the order of the parallel iterations ({}) although every choice is fixed', how)
    from convst.transformers import _input_transformers as I
    if isinstance(X, np.ndarray):
        ref = guarded(I.z_norm_all_samples, X)
        with patched(I, prange=Perm('rev')):
            if not same([guarded(I.z_norm_all_samples, X)], [ref]):
                bad('z_norm_all_samples depends on the iteration order')
    return len(set(int(d) for d in ref_s[2])) > 1

def g_c07(rng):
    c = g_fit(rng)
    c['t'] = int(rng.randint(10, 25)); c['tmin'] = int(rng.randint(8, c['t'] + 1)); c['ls'] = [2, 3, 4]; c['ns'] = 10
    c['kind'] = 'float'
    return c

# ------------------------------------------------------------------ C08
def g_c08(rng):
    c = g_fit(rng, kinds=('float',))
    c['kind'] = 'float'
    c['n'] = int(rng.randint(1, 3)); c['k'] = 1
    c['t'] = int(rng.randint(4, 13)); c['tmin'] = int(rng.randint(max(3, c['t'] - 3), c['t'] + 1))
    m = gmin(c)
    c['ls'] = [int(rng.randint(2, m + 1))]
    c['ns'] = int(rng.randint(2, 30))
    c['alpha'] = float(rng.choice([0.0, 0.1, 0.25, 0.5, 0.5, 0.75, 0.9, 1.0]))
    if rng.randint(0, 3) == 0:
        c['ls'] = sorted(set([c['ls'][0], int(rng.randint(2, m + 1))]))
    return c

def r_c08(c):
    rs = np.random.RandomState(c['seed'])
    X = data_of(c)
    est, X, y = fit_of(c, X=X)
    Xs = series(X)
    its = unpack(est.shapelets_, c['v'])
    single = len(c['ls']) == 1
    full = len(its) == c['ns']
    lmin = {}
    if not (single or full):
        return False          # the smallest length per dilation is not observable
    for s in its:
        lmin[s['d']] = min(lmin.get(s['d'], 10**9), s['l'])
    free = {}
    hist = {}
    nt = False
    def frees(key, k, ch):
        return free.setdefault((key, k, ch), np.ones(Xs[k].shape[1], dtype=bool))
    def admissible(key, k, i, ch):
        return sum(frees(key, k, q)[i] for q in ch) >= (1 if c['v'][0] == 'U' else len(ch) * c['alpha'])
    for r, s in enumerate(its):
        key = (s['norm'], s['d'])
        src = genuine_sources(s, Xs, c['phase'])
        if s['norm'] and s['l'] == 2:
            return False      # two-point normalised shapelets cannot be traced back
        if len(src) != 1:
            return False
        k, i = src[0]
        if not admissible(key, k, i, s['ch']):
            bad('shapelet {} (norm {}, dilation {}, length {}) starts at index {} of series {}, excluded by the earlier ones {}',
                r, s['norm'], s['d'], s['l'], i, k, hist[key])
        size = s['l'] - int(max(1, (1 - c['alpha']) * lmin[s['d']]))
        n = Xs[k].shape[1]
        for q in s['ch']:
            for j in range(max(size, 0)):
                frees(key, k, q)[(i - j * s['d']) % n] = False
                frees(key, k, q)[(i + j * s['d']) % n] = False
        hist.setdefault(key, []).append((s['l'], k, i, s['ch']))
        nt = nt or len(hist[key]) > 1
    if single and not full:
        l = c['ls'][0]
        # some shapelet was dropped: some (flag, dilation, channels) must have no admissible position left
        flags = {'0.0': [False], '1.0': [True]}.get(str(c['pn']), [False, True])
        m = gmin(c)
        ok = False
        chs = [[0]]
        if c['v'][0] == 'M':
            mc = c['mc'] or c['ft']
            chs = [list(q) for w in range(1, mc + 1) for q in itertools.combinations(range(c['ft']), w)]
        for f in flags:
            for d in range(1, (m - 1) // (l - 1) + 1):
                for ch in chs:
                    left = any(admissible((f, d), k, i, ch) for k in range(len(Xs))
                               for i in range(Xs[k].shape[1] if c['phase'] else Xs[k].shape[1] - (l - 1) * d))
                    ok = ok or not left
        if not ok:
            bad('{} of {} shapelets were dropped although every flag, dilation and channel set still has an admissible position',
                c['ns'] - len(its), c['ns'])
        nt = True
    return nt

# ------------------------------------------------------------------ C21
def g_c21(rng):
    t = int(rng.randint(3, 20)); l = int(rng.randint(2, t + 1)); d = int(rng.randint(1, (t - 1) // (l - 1) + 1))
    return dict(t=t, l=l, d=d, ft=int(rng.randint(1, 4)), kind=str(rng.choice(KINDS)), seed=int(rng.randint(0, 10**6)),
                phase=bool(rng.randint(0, 2)), norm=bool(rng.randint(0, 2)))

def r_c21(c):
    from convst.transformers import _commons as C
    rs = np.random.RandomState(c['seed'])
    X = raw_series(rs, c['ft'], c['t'], c['kind'])
    keep = X.copy()
    x = X[0]; y = raw_series(rs, 1, c['t'], c['kind'])[0]
    dd = x - y
    for f, ref in ((C.euclidean, (dd * dd).sum() ** 0.5), (C.squared_euclidean, (dd * dd).sum()), (C.manhattan, np.abs(dd).sum())):
        g = float(guarded(f, x, y))
        if abs(g - ref) > 1e-9 * (abs(g) + abs(ref)):
            bad('{} is {} instead of {}', f.__name__, g, ref)
    pos = positions(c['t'], c['l'], c['d'], c['phase'])
    S1 = guarded(C.generate_strides_1D, x, c['l'], c['d'], c['phase'])
    if S1.shape != (len(pos), c['l']) or not np.array_equal(S1, np.array([x[p] for p in pos])):
        bad('1D strides {} instead of {}', S1.tolist(), [x[p].tolist() for p in pos])
    S2 = guarded(C.generate_strides_2D, X, c['l'], c['d'], c['phase'])
    if S2.shape != (c['ft'], len(pos), c['l']) or not np.array_equal(S2, np.array([[q[p] for p in pos] for q in X])):
        bad('2D strides differ from the subsequences')
    for i, p in enumerate(pos):
        v = guarded(C.get_subsequence, x, i, c['l'], c['d'], c['norm'], c['phase'])
        ref = zn(x[p]) if c['norm'] else x[p]
        if v.shape != ref.shape or not np.all(np.abs(v - ref) <= (1e-6 if c['norm'] else 0) * (1 + np.abs(ref))):
            bad('subsequence at {} is {} instead of {}', i, v.tolist(), ref.tolist())
        dv = guarded(C.compute_shapelet_dist_vector, x, v, c['l'], c['d'], c['norm'], c['phase'])
        if len(dv) != len(pos) or not abs(dv[i]) <= 1e-6 * c['l']:
            bad('distance of a series to its own subsequence at {} is {}', i, dv.tolist())
    if not np.array_equal(X, keep):
        bad('the series was modified')
    return c['l'] > 2 or c['d'] > 1

PROPS = {
    'C01': (g_c01, r_c01, None), 'C02': (g_c02, r_c02, None), 'C03': (g_fit, r_c03, None), 'C04': (g_c04, r_c04, None),
    'C05': (g_c05, r_c05, None), 'C06': (g_c06, r_c06, x_c06), 'C07': (g_c07, r_c07, None), 'C08': (g_c08, r_c08, None),
    'C09': (g_c09, r_c09, None), 'C21': (g_c21, r_c21, None),
}
