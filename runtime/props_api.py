"""Run-time contracts of C10-C20, C22: estimators, helpers, interpreters."""
from common import *
from props_kernels import g_fit, data_of, fit_of, gmin, patched, same, check_transform
import props_kernels as PK
import inspect, copy

class Known(Bad):
    """A failure that the known-findings file may list under this key."""
    def __init__(self, key, msg):
        Bad.__init__(self, msg); self.key = key

def expect_raise(what, f, *a, **k):
    try:
        r = f(*a, **k)
    except ValueError:
        return
    except Exception as e:
        bad('{} raised {} instead of ValueError: {}', what, type(e).__name__, e)
    bad('{} was accepted (returned {!r})', what, r)

def same_val(a, b):
    return np.asarray(a).shape == np.asarray(b).shape and np.array_equal(np.asarray(a), np.asarray(b))

# ------------------------------------------------------------------ spying on the fitter / transformer
class spied:
    """Records the named arguments the estimator passes to the compiled entry points."""
    def __init__(self, run=True):
        self.calls, self.run = [], run
    def __enter__(self):
        self.old = []
        for v in VARIANTS:
            m = mod(v)
            for nm in ('generate_shapelet', 'apply_all_shapelets'):
                name = PREF[v] + '_' + nm
                f = getattr(m, name)
                self.old.append((m, name, f))
                setattr(m, name, self.wrap(v, nm, f))
        return self
    def wrap(self, v, nm, f):
        sig = inspect.signature(f)
        def g(*a, **k):
            b = sig.bind(*a, **k)
            self.calls.append((v, nm, dict(b.arguments)))
            return f(*a, **k)
        return g
    def __exit__(self, *a):
        for m, n, f in self.old:
            setattr(m, n, f)

# ------------------------------------------------------------------ C10
def expected_lengths(c, m):
    """Allowed lengths by the documented rules, or None when fitting must raise."""
    if c.get('bounds') is None:
        ls = c['ls']
        if any(isinstance(q, float) for q in ls):
            ls = [int(np.floor(m * q)) for q in ls]
        if any(q <= 1 for q in ls):
            return None
    else:
        b0, b1 = c['bounds']
        b0 = int(b0 * m) if isinstance(b0, float) else b0
        b1 = int(b1 * m) if isinstance(b1, float) else b1
        ls = list(range(max(3, b0), max(4, b0 + 1, b1 + 1)))
        if len(ls) > 3:
            k = int(len(ls) * c.get('red', 0.5))
            if k > 0:
                ls = ls[::len(ls) // k]
    if all(q <= m for q in ls):
        return ls
    if m < 3:
        return None
    return [q if q <= m else max(2, m // 2) for q in ls]

def g_c10(rng):
    c = g_fit(rng)
    c['n'] = int(rng.randint(1, 4)); c['k'] = 1; c['ns'] = 4; c['kind'] = 'float'
    c['t'] = int(rng.choice([3, 3, 4, 5, 7, 12, 21])); c['tmin'] = int(rng.randint(max(3, c['t'] - 3), c['t'] + 1))
    j = rng.randint(0, 5)
    if j == 0: c['ls'] = [int(q) for q in rng.randint(2, 30, size=rng.randint(1, 4))]
    elif j == 1: c['ls'] = [float(q) for q in rng.uniform(0.05, 1.3, size=rng.randint(1, 4)).round(2)]
    elif j == 2: c['ls'] = [int(q) for q in rng.randint(0, 6, size=rng.randint(1, 3))]
    else:
        a, b = int(rng.randint(1, 12)), int(rng.randint(1, 25))
        c['bounds'] = [[a, b], [float(rng.choice([0.1, 0.2, 0.3])), float(rng.choice([0.5, 0.8, 1.0]))], [a, 0.9]][rng.randint(0, 3)]
        c['red'] = float(rng.choice([0.0, 0.25, 0.5, 0.6, 0.9]))
    return c

def x_c10():
    base = dict(v='US', n=2, ft=1, k=1, kind='float', seed=1, rs=1, ns=3, phase=False, prime=False, alpha=0.5, pn=0.5, tt='univariate', mc=None, pc=[5, 10])
    yield dict(base, t=20, tmin=20, ls=[5], bounds=[4, 10], red=0.5)
    yield dict(base, t=3, tmin=3, ls=[11])
    yield dict(base, t=20, tmin=20, ls=[0.5, 0.25])
    yield dict(base, t=21, tmin=21, ls=[30, 21, 20])
    yield dict(base, t=12, tmin=12, ls=[1, 4])

def r_c10(c):
    m = gmin(c)
    X = data_of(c); y = make_y(c['n'], c['k'], c['seed'])
    exp = expected_lengths(c, m)
    est = guarded(make_est, c)
    with spied() as sp:
        if exp is None:
            expect_raise('fit with lengths {} on series of {} timestamps'.format(c['ls'], m), est.fit, X, y)
            return True
        guarded(est.fit, X, y)
    got = set(int(q) for q in est.shapelets_[1])
    if not got <= set(exp):
        bad('shapelet lengths {} outside the expected {} (series of {})', got, exp, m)
    for v, nm, kw in sp.calls:
        if nm == 'generate_shapelet' and 'shapelet_sizes' in kw:
            ls = np.asarray(kw['shapelet_sizes'])
            if ls.dtype.kind != 'i' or [int(q) for q in ls] != list(exp):
                bad('lengths resolved to {} instead of {} (options {}, series of {})', ls, exp, c.get('bounds') or c['ls'], m)
    return True

# ------------------------------------------------------------------ C11
def g_c11(rng):
    return dict(seed=int(rng.randint(0, 10**6)))

def r_c11(c):
    import convst.utils.checks_utils as U
    import pandas as pd
    from convst.transformers import R_DST
    rs = np.random.RandomState(c['seed'])
    # arrays of every small rank / shape
    for _ in range(30):
        nd = int(rs.randint(0, 5))
        sh = tuple(int(q) for q in rs.choice([0, 1, 1, 2, 3, 3, 4], size=nd))
        A = rs.normal(size=sh) if rs.randint(0, 2) else rs.randint(0, 9, size=sh)
        keep = np.array(A, copy=True)
        A = np.asarray(A)
        for aslist in (False, True):
            if aslist and (nd == 0):
                continue
            arg = A.tolist() if aslist else A
            asarr = np.asarray(arg)
            mt = int(rs.randint(0, 5)); uni = bool(rs.randint(0, 2))
            tests = [
                ('check_array_3D', lambda: U.check_array_3D(arg), asarr.ndim == 3 and asarr.size > 0 and asarr.shape[2] > 2),
                ('check_array_3D(min_timestamps={},is_univariate={})'.format(mt, uni),
                 lambda: U.check_array_3D(arg, is_univariate=uni, min_timestamps=mt),
                 asarr.ndim == 3 and asarr.size > 0 and asarr.shape[2] > mt and (not uni or asarr.shape[1] == 1)),
                ('check_array_2D', lambda: U.check_array_2D(arg), asarr.ndim == 2 and asarr.size > 0),
                ('check_array_1D', lambda: U.check_array_1D(arg), asarr.ndim == 1 and asarr.size > 0),
            ]
            for name, f, ok in tests:
                try:
                    r = f()
                    acc = True
                except ValueError:
                    acc = False
                except Exception as e:
                    bad('{} on shape {} raised {}: {}', name, asarr.shape, type(e).__name__, e)
                if acc != ok:
                    bad('{} {} an input of shape {}', name, 'accepts' if acc else 'rejects', asarr.shape)
                if acc and not (np.asarray(r).shape == asarr.shape and np.array_equal(r, asarr)):
                    bad('{} returned other values for shape {}', name, asarr.shape)
            if not np.array_equal(A, keep):
                bad('a check modified its argument')
    df = pd.DataFrame(rs.normal(size=(3, 2)))
    if not np.array_equal(np.asarray(guarded(U.check_array_2D, df)), df.values):
        bad('check_array_2D changes a data frame')
    expect_raise('check_array_3D(DataFrame)', U.check_array_3D, df)
    expect_raise('check_array_1D(DataFrame)', U.check_array_1D, df)
    for x in ('abc', None, 3, {1: 2}, (1, 2)):
        for f in (U.check_array_3D, U.check_array_2D, U.check_array_1D, U.check_is_numpy, U.check_is_numpy_or_pd):
            expect_raise('{}({!r})'.format(f.__name__, x), f, x)
    for x, ok in ((0, 1), (1, 1), (-3, 1), (2.5, 1), (np.int64(3), 1), (np.float32(2), 1), (np.int8(-1), 1), (True, 0), (False, 0), ('a', 0),
                  (None, 0), ([1], 0), (float('nan'), 1), (1j, 0)):
        if ok:
            r = guarded(U.check_is_numeric, x)
            if not (r is x or r == x or r != r):
                bad('check_is_numeric({!r}) returned {!r}', x, r)
        else:
            expect_raise('check_is_numeric({!r})'.format(x), U.check_is_numeric, x)
    for x in (True, False):
        if guarded(U.check_is_boolean, x) is not x:
            bad('check_is_boolean({}) is not {}', x, x)
    for x in (0, 1, 'True', None, 1.0, [True]):
        expect_raise('check_is_boolean({!r})'.format(x), U.check_is_boolean, x)
    for cpu in (1, 2, 4, 64):
        with patched(U, cpu_count=lambda: cpu):
            for n in (None, 1, 2, 3, 4, 5, 64, 100, -1, -2, -cpu, np.int64(2), np.int64(-1)):
                r = guarded(U.check_n_jobs, n)
                e = 1 if n is None else (cpu + n + 1 if n < 0 else min(n, cpu))
                if r != e:
                    bad('check_n_jobs({}) with {} cpus is {} instead of {}', n, cpu, r, e)
            for n in (True, False, 1.0, 'a', 2.5):
                expect_raise('check_n_jobs({!r})'.format(n), U.check_n_jobs, n)
    # constructor
    for tt in ('auto', 'univariate', 'multivariate', 'univariate_variable', 'multivariate_variable', 'AUTO', 'Univariate'):
        if guarded(R_DST, transform_type=tt).transform_type != tt.lower():
            bad('transform type {!r} became {!r}', tt, R_DST(transform_type=tt).transform_type)
    for tt in ('', 'uni', 'variable', 'multivariate variable'):
        expect_raise('transform_type={!r}'.format(tt), R_DST, transform_type=tt)
    a, b = sorted(int(q) for q in rs.randint(0, 101, size=2))
    for pc in ([a, b], [float(a), float(b)], [b, b], np.array([a, b])):
        if not np.array_equal(guarded(R_DST, percentiles=pc).percentiles, pc):
            bad('percentiles {} changed', pc)
    if a < b:
        expect_raise('percentiles={}'.format([b, a]), R_DST, percentiles=[b, a])
    for kw in (dict(percentiles=['a', 'b']), dict(percentiles=5), dict(percentiles=[5]), dict(percentiles=[5, 10, 20]), dict(percentiles=[5., 10., 20.]), dict(phase_invariance=1), dict(prime_dilations='x'), dict(normalize_output=None),
               dict(alpha='0.5'), dict(alpha=True), dict(proba_norm=None), dict(n_shapelets='10'), dict(n_shapelets=True), dict(shapelet_lengths=7),
               dict(shapelet_lengths=[]), dict(shapelet_lengths=[[3]]), dict(shapelet_lengths_bounds=[3]), dict(shapelet_lengths_bounds=[3, 4, 5]),
               dict(lengths_bounds_reduction=1), dict(lengths_bounds_reduction=1.0), dict(lengths_bounds_reduction=2.5), dict(n_samples='a'),
               dict(n_jobs='a'), dict(n_jobs=1.5)):
        expect_raise('R_DST({})'.format(kw), R_DST, **kw)
    for kw in (dict(lengths_bounds_reduction=0.99), dict(lengths_bounds_reduction=0), dict(alpha=0), dict(alpha=1.0), dict(n_samples=0.5), dict(n_samples=None),
               dict(shapelet_lengths_bounds=[3, 4]), dict(shapelet_lengths=[7, 9]), dict(n_jobs=1), dict(n_jobs=-1), dict(n_jobs=None), dict(n_jobs=False), dict(n_shapelets=3)):
        e = guarded(R_DST, **kw)
        for k, val in kw.items():
            if k != 'n_jobs' and not np.array_equal(getattr(e, k), val):
                bad('option {}={!r} stored as {!r}', k, val, getattr(e, k))
    return True

# ------------------------------------------------------------------ C12
def g_c12(rng):
    return dict(n=int(rng.randint(1, 5)), ft=int(rng.randint(1, 4)), t=int(rng.randint(1, 15)), kind=str(rng.choice(('int', 'float', 'const', 'tiny', 'mixed', 'zero'))), seed=int(rng.randint(0, 10**6)))

def r_c12(c):
    from convst.transformers import _input_transformers as I
    from convst.utils import dataset_utils as D
    import aeon.datasets as AD
    rs = np.random.RandomState(c['seed'])
    mk = lambda t: (np.full((c['ft'], t), 2.0) if c['kind'] == 'zero' else raw_series(rs, c['ft'], t, c['kind'] if t > 4 else 'int'))
    X = np.array([mk(c['t']) for _ in range(c['n'])])
    keep = X.copy()
    ref = np.array([[zn(q) for q in x] for x in X])
    def cmp(what, got, ref):
        if np.asarray(got).shape != ref.shape:
            bad('{}: shape {} instead of {}', what, np.asarray(got).shape, ref.shape)
        if not np.all(np.abs(got - ref) <= 1e-6 * (1 + np.abs(ref))):
            i = np.argwhere(~(np.abs(got - ref) <= 1e-6 * (1 + np.abs(ref))))[0]
            bad('{}: element {} is {} instead of {}', what, tuple(i), got[tuple(i)], ref[tuple(i)])
    cmp('z_norm_one_sample', guarded(I.z_norm_one_sample, X[0]), ref[0])
    cmp('z_norm_all_samples', guarded(I.z_norm_all_samples, X), ref)
    if c['t'] > 2:
        cmp('Z_normalizer', guarded(I.Z_normalizer().fit(X).transform, X), ref)
    if not np.array_equal(X, keep):
        bad('an out-of-place z-normalisation modified its input')
    cmp('z_norm_3D', guarded(D.z_norm_3D, X.copy()), ref)
    L = [mk(int(rs.randint(1, 15))) for _ in range(c['n'])]
    Lr = [np.array([zn(q) for q in x]) for x in L]
    out = guarded(D.z_norm_3D_list, [x.copy() for x in L])
    if len(out) != len(L):
        bad('z_norm_3D_list returns {} samples for {}', len(out), len(L))
    for a, b in zip(out, Lr):
        cmp('z_norm_3D_list', a, b)
    # loader
    for kind in ('array', 'list'):
        if kind == 'array':
            tr, te = X, np.array([mk(c['t']) for _ in range(2)])
        else:
            tr, te = L, [mk(int(rs.randint(1, 15))) for _ in range(2)]
        labs = np.array(['b', 'a', 'c'])
        ytr = labs[np.arange(c['n']) % 3]; yte = labs[np.arange(2) % min(3, c['n'])]
        for norm in (False, True):
            cp = (lambda Z: Z.copy()) if kind == 'array' else (lambda Z: [z.copy() for z in Z])
            AD.DATA['d', 'train'] = (cp(tr), ytr.copy()); AD.DATA['d', 'test'] = (cp(te), yte.copy())
            a, b, ya, yb, ml = guarded(D.load_UCR_UEA_dataset_split, 'd', normalize=norm)
            for got, src in ((a, tr), (b, te)):
                if len(got) != len(src):
                    bad('loader returns {} of {} samples', len(got), len(src))
                for g, s in zip(got, src):
                    if norm:
                        cmp('loader(normalize=True, {})'.format(kind), np.asarray(g), np.array([zn(q) for q in s]))
                    elif not np.array_equal(g, s):
                        bad('loader(normalize=False) changed a series')
            if kind == 'array' and hasattr(D, 'load_UCR_UEA_dataset'):
                AD.DATA['d', 'train'] = (cp(tr), ytr.copy()); AD.DATA['d', 'test'] = (cp(te), yte.copy())
                Z, yz = guarded(D.load_UCR_UEA_dataset, 'd', normalize=norm)
                src = list(tr) + list(te)
                if len(Z) != len(src):
                    bad('load_UCR_UEA_dataset returns {} of {} samples', len(Z), len(src))
                for g, s in zip(Z, src):
                    if norm:
                        cmp('load_UCR_UEA_dataset(normalize=True)', np.asarray(g), np.array([zn(q) for q in s]))
                    elif not np.array_equal(g, s):
                        bad('load_UCR_UEA_dataset(normalize=False) changed a series')
                if not np.array_equal(yz, np.concatenate((ya, yb))):
                    bad('load_UCR_UEA_dataset orders the labels differently from the series')
            u = sorted(set(ytr))
            if [u[int(q)] for q in ya] != list(ytr) or [u[int(q)] for q in yb] != list(yte):
                bad('loader labels {} {} do not encode {} {}', ya, yb, ytr, yte)
            if ml != min(len(z[0]) for z in list(tr) + list(te)):
                bad('loader min_len {} instead of {}', ml, min(len(z[0]) for z in list(tr) + list(te)))
    return c['n'] > 1 and c['t'] > 2

# ------------------------------------------------------------------ C13
def g_c13(rng):
    return dict(k=int(rng.randint(1, 4)), seed=int(rng.randint(0, 10**6)), rs=int(rng.randint(0, 100)), aslist=bool(rng.randint(0, 2)),
                ft=int(rng.randint(1, 3)), t=int(rng.randint(3, 6)), labels=[[0, 1, 2], [5, 3, 9], [-1, 1, 4]][rng.randint(0, 3)], shared=bool(rng.randint(0, 2)))

def r_c13(c):
    from convst.utils import experiments_utils as E
    import aeon.datasets as AD
    rs = np.random.RandomState(c['seed'])
    ctr = [int(rs.randint(1, 5)) for _ in range(c['k'])]; cte = [int(rs.randint(1, 5)) for _ in range(c['k'])]
    n = sum(ctr) + sum(cte)
    pool = []
    while len(pool) < n:
        x = rs.normal(size=(c['ft'], c['t'])) if not c['aslist'] else rs.normal(size=(c['ft'], c['t'] + int(rs.randint(0, 3))))
        if c['shared'] and pool and not c['aslist'] and c['ft'] > 1:
            x[0] = pool[rs.randint(0, len(pool))][0]        # first channel shared, series still distinct
        pool.append(x)
    ytr = np.array([c['labels'][i] for i in range(c['k']) for _ in range(ctr[i])]); yte = np.array([c['labels'][i] for i in range(c['k']) for _ in range(cte[i])])
    rs.shuffle(ytr); rs.shuffle(yte)
    mk = (lambda Z: list(Z)) if c['aslist'] else np.array
    Xtr, Xte = mk(pool[:len(ytr)]), mk(pool[len(ytr):])
    kx = copy.deepcopy((Xtr, Xte, ytr, yte))
    def ident(x):
        for i, p in enumerate(pool):
            if np.asarray(x).shape == p.shape and np.array_equal(x, p):
                return i
        bad('a resampled series is none of the original ones')
    lab = list(ytr) + list(yte)
    a, ya, b, yb = guarded(E._resample, Xtr, ytr, Xte, yte, c['rs'])
    if len(a) != len(ytr) or len(b) != len(yte) or len(ya) != len(a) or len(yb) != len(b):
        bad('resampled sizes {} {} {} {} instead of {} {}', len(a), len(ya), len(b), len(yb), len(ytr), len(yte))
    ids = [ident(x) for x in a] + [ident(x) for x in b]
    if sorted(ids) != list(range(n)):
        bad('resampling does not hold every series once: {}', ids)
    for i, l in zip(ids, list(ya) + list(yb)):
        if l != lab[i]:
            bad('series {} has label {} after resampling instead of {}', i, l, lab[i])
    for q in set(lab):
        if list(ya).count(q) != list(ytr).count(q) or list(yb).count(q) != list(yte).count(q):
            bad('class {} has {} train / {} test members instead of {} / {}', q, list(ya).count(q), list(yb).count(q), list(ytr).count(q), list(yte).count(q))
    for u, v in zip(kx, (Xtr, Xte, ytr, yte)):
        if len(u) != len(v) or not all(np.array_equal(p, q) for p, q in zip(u, v)):
            bad('resampling modified its inputs')
    a2, ya2, b2, yb2 = guarded(E._resample, Xtr, ytr, Xte, yte, c['rs'])
    if [ident(x) for x in a2] + [ident(x) for x in b2] != ids or list(ya2) != list(ya):
        bad('resampling is not deterministic for a seed')
    # splitter and scorer
    if not c['aslist']:
        AD.DATA['d', 'train'] = (Xtr.copy(), ytr.copy()); AD.DATA['d', 'test'] = (Xte.copy(), yte.copy())
        X = np.concatenate((Xtr, Xte)); y = np.concatenate((ytr, yte))
        folds = list(guarded(lambda: list(E._sklearn_cv(3, 'd').split(X, y))))
        if len(folds) != 3:
            bad('{} folds instead of 3', len(folds))
        enc = {v: i for i, v in enumerate(sorted(set(lab)))}
        for f, (itr, ite) in enumerate(folds):
            if f == 0:
                e1, e2 = list(range(len(ytr))), list(range(len(ytr), n))
            else:
                p, _, q, _ = E._resample(Xtr, np.array([enc[l] for l in ytr]), Xte, np.array([enc[l] for l in yte]), f)
                e1, e2 = [ident(x) for x in p], [ident(x) for x in q]
            if [int(i) for i in itr] != e1 or [int(i) for i in ite] != e2:
                bad('fold {}: indices {} / {} instead of {} / {}', f, itr, ite, e1, e2)
        class Pipe:
            log = []
            def fit(self, X, y): self.log.append(('fit', X.copy(), np.array(y))); return self
            def predict(self, X): self.log.append(('predict', X.copy())); return np.zeros(len(X), dtype=int)
        Pipe.log = []
        sc = guarded(E.cross_validate_UCR_UEA(3, 'd').score, Pipe())
        for f in range(3):
            if f == 0:
                p, yp, q, yq = Xtr, [enc[l] for l in ytr], Xte, [enc[l] for l in yte]
            else:
                p, yp, q, yq = E._resample(Xtr, np.array([enc[l] for l in ytr]), Xte, np.array([enc[l] for l in yte]), f)
            fi, pr = Pipe.log[2 * f], Pipe.log[2 * f + 1]
            if not (np.array_equal(fi[1], p) and list(fi[2]) == list(yp)):
                bad('split {}: the pipeline is fitted on other data than the split', f)
            if not np.array_equal(pr[1], q):
                bad('split {}: predictions are made on other data than the split', f)
            if abs(sc.loc[f, 'accuracy'] - np.mean(np.asarray(yq) == 0)) > 1e-12:
                bad('split {}: score {} instead of {}', f, sc.loc[f, 'accuracy'], np.mean(np.asarray(yq) == 0))
    return c['k'] > 1

# ------------------------------------------------------------------ C14
def g_c14(rng):
    k = int(rng.choice([2, 2, 3]))
    return dict(k=k, n=int(rng.randint(2, 4)) * k, t=int(rng.randint(8, 14)), seed=int(rng.randint(0, 10**6)), rs=int(rng.randint(0, 10**6)),
                labels=[[0, 1, 2], [1, 2, 3], [7, -2, 30], ['x', 'b', 'm'], [1, 0, 2]][rng.randint(0, 5)], a_w=float(rng.choice([0, 1, 4])),
                pn=[float(q) for q in rng.permutation([0.0, 0.5, 1.0])])

def loo_weight(c):
    """the leave-one-out accuracy on any cross-validation table, whichever penalty was chosen"""
    from convst.classifiers.rdst_ensemble import _internalRidgeCV as M
    rs = np.random.RandomState(c['seed'] + 1)
    cl = np.unique(np.array(c['labels'][:c['k']])); na = int(rs.randint(1, 6)); n = int(rs.randint(1, 9))
    m = M.__new__(M)
    m.store_cv_values = True; m.classes_ = cl
    m.alphas = np.sort(rs.choice(np.logspace(-4, 4, 20), na, replace=False)); a = int(rs.randint(0, na)); m.alpha_ = m.alphas[a]
    m.cv_values_ = rs.normal(size=(n, 1 if c['k'] == 2 else c['k'], na))
    y = cl[rs.randint(0, len(cl), n)]
    cv = m.cv_values_[:, :, a]
    loo = cl[(cv[:, 0] > 0).astype(int)] if cv.shape[1] == 1 else cl[cv.argmax(axis=1)]
    w = guarded(m.get_loocv_train_acc, y)
    if not np.allclose(w, np.mean(loo == y)):
        bad('penalty {} of {} chosen: leave-one-out accuracy {} instead of {}', a, na, w, np.mean(loo == y))

def r_c14(c):
    from convst.classifiers import R_DST_Ensemble
    import convst.classifiers.rdst_ensemble as E
    if hasattr(E, '_internalRidgeCV') and hasattr(E._internalRidgeCV, 'get_loocv_train_acc'):
        loo_weight(c)
    rs = np.random.RandomState(c['seed'])
    X = rs.normal(size=(c['n'], 1, c['t']))
    yi = make_y(c['n'], c['k'], c['seed'])
    X += np.sin(np.arange(c['t'])[None, None, :] * (1 + yi[:, None, None])) * float(rs.choice([0.3, 1.0]))
    y = np.array(c['labels'][:c['k']])[yi]
    e = guarded(R_DST_Ensemble, n_shapelets_per_estimator=6, shapelet_lengths=[4], random_state=c['rs'], a_w=c['a_w'], proba_norm=c['pn'])
    guarded(e.fit, X, y)
    cl = np.unique(y)
    Z = np.concatenate((X, rs.normal(size=(4, 1, c['t']))))
    pred = np.asarray(guarded(e.predict, Z))
    if pred.shape != (len(Z),) or not all(p in set(cl.tolist()) for p in pred.tolist()):
        bad('predictions {} are not training labels {}', pred.tolist(), cl.tolist())
    ms = e.models
    if len(ms) != len(e.input_transformers) or len(e.model_weights) != len(ms):
        bad('{} models, {} weights for {} transformations', len(ms), len(e.model_weights), len(e.input_transformers))
    for i, m in enumerate(ms):
        if m[0] is not e.input_transformers[i] and type(m[0]) is not type(e.input_transformers[i]):
            bad('model {} uses transformation {}', i, type(m[0]).__name__)
        if m[1].proba_norm != c['pn'][i]:
            bad('model {} uses normalisation probability {} instead of {}', i, m[1].proba_norm, c['pn'][i])
        r = m[2]
        # the model was trained on the transform of its own input transformation
        F = m[1].transform(m[0].transform(X))
        if not np.allclose(r.scaler.mean_, F.mean(axis=0)):
            bad('model {}: classifier not fitted on the features of its own pipeline', i)
        al = int(np.where(np.asarray(r.alphas) == r.alpha_)[0][0])
        cv = r.cv_values_[:, :, al]
        loo = cl[(cv[:, 0] > 0).astype(int)] if cv.shape[1] == 1 else cl[cv.argmax(axis=1)]
        w = float(np.mean(loo == y)) ** c['a_w']
        if not np.allclose(e.model_weights[i], w):
            bad('model {}: weight {} instead of {} (leave-one-out accuracy {} to the power {})', i, e.model_weights[i], w, np.mean(loo == y), c['a_w'])
        d = r.decision_function(r.scaler.transform(m[1].transform(m[0].transform(Z))))
        p = np.asarray(guarded(m.predict_proba, Z))
        if d.ndim == 1:
            d = np.stack([-d, d], axis=1)
        ex = np.exp(d - d.max(axis=1, keepdims=True)); ex /= ex.sum(axis=1, keepdims=True)
        if p.shape != ex.shape or not np.allclose(p, ex, 1e-6, 1e-9):
            bad('model {}: class probabilities differ from the softmax of the decision values', i)
    def vote(ws):
        s = sum(w * np.asarray(m.predict_proba(Z)) for w, m in zip(ws, ms))
        o = np.sort(s, axis=1)
        return cl[s.argmax(axis=1)], o[:, -1] - o[:, -2] > 1e-9
    for ws in ([float(w) for w in e.model_weights], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.3, 0.9, 0.1]):
        e.model_weights = list(ws)
        v, clear = vote(ws)
        p = np.asarray(guarded(e.predict, Z))
        if not np.array_equal(p[clear], v[clear]):
            bad('with weights {} predictions {} instead of the weighted vote {}', ws, p.tolist(), v.tolist())
    return True

# ------------------------------------------------------------------ C15
def g_c15(rng):
    return dict(n=int(rng.randint(2, 7)), m=int(rng.randint(1, 9)), seed=int(rng.randint(0, 10**6)), rs=int(rng.randint(0, 10**6)), ridge=bool(rng.randint(0, 3) == 0),
                labels=[[0, 1], [4, 9], ['u', 'v']][rng.randint(0, 3)])

def r_c15(c):
    from convst.transformers import _input_transformers as I
    rs = np.random.RandomState(c['seed'])
    A = rs.randint(-4, 5, size=(c['n'], c['m'])).astype(float)
    for j in range(c['m']):
        if rs.randint(0, 3) == 0: A[:, j] = float(rs.randint(-2, 3))
    if all(len(set(A[:, j])) == 1 for j in range(c['m'])):
        A[:, 0] = np.arange(c['n'])
    B = rs.randint(-9, 10, size=(int(rs.randint(1, 6)), c['m'])).astype(float)
    if rs.randint(0, 2): B[:, :] = B[0]
    keep = A.copy(), B.copy()
    cols = [j for j in range(c['m']) if len(set(A[:, j])) > 1]
    F = A[:, cols]
    for cls in (I.c_StandardScaler, I.c_MinMaxScaler):
        s = guarded(cls().fit, A)
        for Z in (A, B):
            out = np.asarray(guarded(s.transform, Z))
            if cls is I.c_StandardScaler:
                ref = (Z[:, cols] - F.mean(axis=0)) / F.std(axis=0)
            else:
                ref = (Z[:, cols] - F.min(axis=0)) / (F.max(axis=0) - F.min(axis=0))
            if out.shape != ref.shape or not np.allclose(out, ref, 1e-7, 1e-9):
                bad('{}: {} instead of {} (columns {})', cls.__name__, out.tolist(), ref.tolist(), cols)
    if not (np.array_equal(A, keep[0]) and np.array_equal(B, keep[1])):
        bad('a scaler modified its input')
    if c['ridge']:
        from convst.classifiers import R_DST_Ridge
        n, t = 6, 10
        X = rs.normal(size=(n, 1, t)); yi = np.array([0, 1] * 3); X += 2 * yi[:, None, None] * np.cos(np.arange(t))
        X[:, :, :5] = rs.randint(-2, 3, size=5)          # a shared part gives constant features
        y = np.array(c['labels'])[yi]
        kX, ky = X.copy(), y.copy()
        r = guarded(R_DST_Ridge(n_shapelets=8, shapelet_lengths=[3], random_state=c['rs']).fit, X, y)
        if not (np.array_equal(X, kX) and np.array_equal(y, ky)):
            bad('fit modified its inputs')
        Ft = r.transformer.transform(X)
        sc = r.classifier['c_standardscaler']; rg = r.classifier['ridgeclassifiercv']
        cols = np.where(Ft.std(axis=0) != 0)[0]
        if list(sc.usefull_atts) != list(cols):
            bad('the scaler keeps columns {} instead of the varying ones {}', sc.usefull_atts, cols)
        if not np.allclose(sc.mean_, Ft[:, cols].mean(axis=0)):
            bad('the classifier was not fitted on the transform of the training series')
        Z = np.concatenate((X, rs.normal(size=(5, 1, t))))
        FZ = r.transformer.transform(Z)
        dec = rg.decision_function((FZ[:, cols] - Ft[:, cols].mean(axis=0)) / Ft[:, cols].std(axis=0))
        ref = np.unique(y)[(dec > 0).astype(int)]
        clear = np.abs(dec) > 1e-9
        p = np.asarray(guarded(r.predict, Z))
        if not np.array_equal(p[clear], ref[clear]):
            bad('predictions {} instead of {}', p.tolist(), ref.tolist())
        yy = np.concatenate((y, y[:5]))
        if abs(guarded(r.score, Z, yy) - np.mean(p == yy)) > 1e-12:
            bad('score {} instead of the accuracy {}', r.score(Z, yy), np.mean(p == yy))
    return True

# ------------------------------------------------------------------ C16
def g_c16(rng):
    c = g_fit(rng, kinds=('float',))
    c['n'] = int(rng.randint(6, 9)); c['k'] = int(rng.randint(1, 3))
    c['nsamp'] = [None, None, 0.5, 1.5, 0.75][rng.randint(0, 5)]
    c['ens'] = bool(rng.randint(0, 8) == 0)
    c['ridge'] = bool(rng.randint(0, 6) == 0)
    return c

def r_c16(c):
    X = data_of(c); y = make_y(c['n'], c['k'], c['seed'])
    import random as pyrandom
    def one(g):
        np.random.seed(g); pyrandom.seed(g)
        np.random.rand(g % 7)
        e = guarded(make_est, c)
        guarded(e.fit, X, y)
        return e
    e1, e2 = one(3), one(12345)
    if not same(e1.shapelets_, e2.shapelets_):
        bad('two fits with random_state {} differ under different global generator states', c['rs'])
    st = np.random.get_state()
    o1 = guarded(e1.transform, X)
    st2 = np.random.get_state()
    if not (np.array_equal(st[1], st2[1]) and st[2] == st2[2]):
        bad('transform draws random numbers')
    np.random.seed(99)
    o2 = guarded(e1.transform, X)
    if not np.array_equal(o1, o2):
        bad('two transforms of the same series differ')
    if c['ridge'] and c['v'] == 'US' or c['ens']:
        from convst.classifiers import R_DST_Ensemble, R_DST_Ridge
        import joblib
        Xa = make_data('US', 6, 1, 14, c['seed'], 'float'); ya = np.array([0, 1] * 3)
        if c['ridge']:
            rr = []
            for g in (1, 77):
                np.random.seed(g)
                rr.append(guarded(R_DST_Ridge(n_shapelets=5, shapelet_lengths=[4], random_state=c['rs'], n_samples=c['nsamp']).fit, Xa, ya).transformer.shapelets_)
            if not same(rr[0], rr[1]):
                bad('two R_DST_Ridge fits with the same seed differ')
        if c['ens']:
            res = []
            try:
                for g, order in ((1, None), (50, None), (7, lambda i: i[::-1]), (8, lambda i: i[1:] + i[:1])):
                    np.random.seed(g)
                    joblib.Parallel.order = order
                    e = guarded(R_DST_Ensemble(n_shapelets_per_estimator=4, shapelet_lengths=[4], random_state=c['rs'], n_samples=c['nsamp']).fit, Xa, ya)
                    res.append([a for m in e.models for a in m[1].shapelets_])
            finally:
                joblib.Parallel.order = None
            if not same(res[0], res[1]):
                bad('two ensemble fits with the same seed differ')
            if not (same(res[0], res[2]) and same(res[0], res[3])):
                bad('ensemble members depend on the order in which they are fitted')
    return c['nsamp'] is not None

# ------------------------------------------------------------------ C17
def g_c17(rng):
    c = g_fit(rng)
    c['nsamp'] = [None, None, 0.5, 1.5][rng.randint(0, 4)] if c['n'] > 3 else None
    c['tt'] = 'auto' if rng.randint(0, 2) else c['tt']
    if c['tt'] == 'auto' and c['v'][0] == 'M' and c['ft'] == 1:
        c['ft'] = 2; c['mc'] = None
    m = gmin(c)
    if rng.randint(0, 3) == 0 and m >= 5:
        c['ls'] = [0.5, 0.8]
    elif rng.randint(0, 3) == 0:
        c['bounds'] = [0.3, 0.6]
    c['second'] = int(rng.randint(0, 3))
    return c

def x_c17():
    yield dict(v='US', n=3, ft=1, t=10, tmin=10, k=1, kind='float', seed=1, rs=1, ns=3, ls=[4], phase=False, prime=False, alpha=0.5, pn=0.5, tt='auto', mc=None, pc=[5, 10], nsamp=None, second=0, switch=True)

def snap(X):
    return [np.array(x, copy=True) for x in X]

def r_c17(c):
    X = data_of(c); y = make_y(c['n'], c['k'], c['seed'])
    kx, ky = snap(X), y.copy()
    est = guarded(make_est, c)
    opts = {k: copy.deepcopy(getattr(est, k)) for k in ('shapelet_lengths', 'min_len', 'max_channels', 'shapelet_lengths_bounds', 'percentiles', 'n_shapelets', 'alpha', 'proba_norm', 'n_samples')}
    guarded(est.fit, X, y)
    def inputs(when, X, kx, y, ky):
        if not all(np.array_equal(a, b) for a, b in zip(snap(X), kx)) or len(X) != len(kx):
            bad('{} modified the series', when)
        if not np.array_equal(y, ky):
            bad('{} modified the labels', when)
    inputs('fit', X, kx, y, ky)
    fitted = [np.array(a, copy=True) for a in est.shapelets_]
    o = guarded(est.transform, X)
    inputs('transform', X, kx, y, ky)
    o2 = guarded(est.transform, X)
    if not np.array_equal(o, o2):
        bad('a second transform gives other features')
    if not all(np.array_equal(a, b) for a, b in zip(fitted, est.shapelets_)):
        bad('transform modified the fitted shapelets')
    for k, v in opts.items():
        if not same_val(getattr(est, k), v) and not (getattr(est, k) is None and v is None):
            bad('fit changed the option {} from {} to {}', k, v, getattr(est, k))
    # refit
    c2 = dict(c, seed=c['seed'] + 17, n=c['n'])
    if c['second'] == 1:
        c2.update(t=c['t'] + 6, tmin=c['tmin'] + 5)
    elif c['second'] == 2 and c['v'][0] == 'M' and c['mc'] is None:
        c2.update(ft=c['ft'] + 1)
    X2 = data_of(c2)
    est.random_state = np.random.RandomState(5)
    guarded(est.fit, X2, y)
    fresh = guarded(make_est, c)
    fresh.random_state = np.random.RandomState(5)
    guarded(fresh.fit, X2, y)
    if not same(est.shapelets_, fresh.shapelets_):
        bad('a second fit differs from the fit of a fresh estimator (lengths {} vs {})', est.shapelets_[1], fresh.shapelets_[1])
    if c.get('switch'):
        X3 = make_data('MS', 3, 2, 10, 3, 'float')
        e = guarded(make_est, c); guarded(e.fit, X, y)
        guarded(e.fit, X3, y)
        t = e.transform_type
        if t != 'multivariate':
            if t == 'univariate':
                raise Known('auto-type-sticks', "an 'auto' estimator fitted on univariate and then on multivariate data stays 'univariate'")
            bad('transform type {} after refit', t)
    return True

# ------------------------------------------------------------------ C18
def g_c18(rng):
    c = g_fit(rng, v=str(rng.choice(['US', 'US', 'UV', 'MS'])), kinds=('float', 'int', 'walk', 'periodic'))
    c['t'] = max(6, c['t']); c['tmin'] = max(5, c['tmin']); c['tmin'] = min(c['tmin'], c['t'])
    m = gmin(c); c['ls'] = [int(rng.randint(2, min(m, 8) + 1))]
    c['lab'] = int(rng.randint(2, 4)); c['ridge'] = bool(rng.randint(0, 3) == 0)
    return c

def r_c18(c):
    from convst.interpreters import rdst_interpreter as R
    from matplotlib import pyplot as plt
    est, X, y = fit_of(c)
    if c['v'][0] == 'M':
        it = guarded(R.RDST_interpreter, est)
        try:
            it.plot_distance_vector(0, X[0][0])
        except NotImplementedError:
            return True
        except Exception as e:
            bad('interpreting a multivariate transformer raised {} instead of NotImplementedError', type(e).__name__)
        bad('interpreting a multivariate transformer is not refused')
    its = unpack(est.shapelets_, c['v'])
    if not its:
        return False
    F = guarded(est.transform, X)
    it = guarded(R.RDST_interpreter, est)
    rs = np.random.RandomState(c['seed'])
    for i in rs.permutation(len(X))[:2]:
        x = np.asarray(X[i], dtype=float)[0]
        kx = x.copy()
        for r in rs.permutation(len(its))[:3]:
            s = its[r]
            for withax in (False, True):
                ax = plt.Rec() if withax else None
                fig = guarded(it.plot_distance_vector, int(r), x, ax=ax)
                rec = ax if withax else fig
                dv = [a[0] for nm, a, k in rec.calls if nm == 'plot']
                ref = dist_vector([x], s['vals'], s['l'], s['d'], s['norm'], c['phase'])
                if len(dv) != 1 or np.asarray(dv[0]).shape != ref.shape or not np.allclose(dv[0], ref, 1e-6, 1e-6):
                    bad('plotted distance vector of shapelet {} differs from the transform\'s', r)
                hl = [a for nm, a, k in rec.calls if nm == 'hlines']
                if len(hl) != 1 or not close(float(hl[0][0]), s['thr'], 1e-12):
                    bad('threshold line {} instead of {}', hl, s['thr'])
                ax = plt.Rec() if withax else None
                fig = guarded(it.plot_on_X, int(r), x, ax=ax)
                rec = ax if withax else fig
                sc = [a for nm, a, k in rec.calls if nm == 'scatter']
                pl = [a for nm, a, k in rec.calls if nm == 'plot']
                if len(pl) != 1 or not np.array_equal(pl[0][0], x):
                    bad('the plotted series is not the given one')
                st = int(F[i, 3 * r + 1])
                pos = [(st + j * s['d']) % len(x) for j in range(s['l'])]
                if len(sc) != 1 or [int(q) for q in sc[0][0]] != pos:
                    bad('highlighted positions {} instead of {} (match at {}, dilation {})', sc[0][0] if sc else None, pos, st, s['d'])
                v = s['vals'][0]
                if s['norm']:
                    v = v * x[pos].std() + x[pos].mean()
                if not np.allclose(sc[0][1], v, 1e-9, 1e-12):
                    bad('highlighted values {} instead of {}', sc[0][1], v)
                fig = guarded(it.plot, int(r), ax=ax) if withax else guarded(it.plot, int(r))
                pv = [a[0] for nm, a, k in (ax if withax else fig).calls if nm == 'plot'][-1]
                if not np.array_equal(pv, s['vals'][0]):
                    bad('plotted values of shapelet {} are not its values', r)
        if not np.array_equal(x, kx):
            bad('plotting modified the series')
    if c['ridge']:
        from convst.classifiers import R_DST_Ridge
        n, t, k = 9, 12, c['lab']
        XX = rs.normal(size=(n, 1, t)); XX[:, :, :6] = rs.randint(-2, 3, size=6); yy = np.arange(n) % k
        rg = R_DST_Ridge(n_shapelets=6, shapelet_lengths=[4], random_state=c['rs']).fit(XX, yy)
        ri = guarded(R.RDST_Ridge_interpreter, rg)
        cols = list(rg.classifier['c_standardscaler'].usefull_atts)
        coef = np.asarray(rg.classifier['ridgeclassifiercv'].coef_)
        nf = 3 * len(rg.transformer.shapelets_[1])
        for cid in range(k):
            ref = np.zeros(nf)
            w = coef[cid] if k > 2 else (coef[0] if cid == 1 else -coef[0])
            for j, col in enumerate(cols):
                ref[col] = w[j]
            if hasattr(ri, '_get_shp_importance'):
                got = np.asarray(guarded(ri._get_shp_importance, cid))
                if got.shape != ref.shape or not np.allclose(got, ref):
                    bad('importance of class {} is {} instead of {}', cid, got.tolist(), ref.tolist())
    return True

# ------------------------------------------------------------------ C19
def g_c19(rng):
    c = g_fit(rng, kinds=('float',))
    c['n'] = int(rng.randint(4, 8)); c['k'] = int(rng.randint(1, 3)); c['ft'] = int(rng.randint(2, 5)) if c['v'][0] == 'M' else 1
    c['t'] = int(rng.randint(9, 20)); c['tmin'] = int(rng.randint(8, c['t'] + 1))
    c['tt'] = 'auto' if rng.randint(0, 2) else TYPE[c['v']]
    c['ls'] = [3, 5]; c['ns'] = 7; c['alpha'] = 0.35; c['pn'] = 0.25; c['pc'] = [11, 83]
    c['mc'] = [None, 1, 2][rng.randint(0, 3)] if c['v'][0] == 'M' else None
    c['ml'] = [None, 7][rng.randint(0, 2)] if c['v'][1] == 'V' else None
    c['nsamp'] = [None, None, 0.75, 1.5][rng.randint(0, 4)]
    c['cont'] = int(rng.randint(0, 3)); c['wrap'] = int(rng.randint(0, 5))
    return c

def r_c19(c):
    X = data_of(c); y = make_y(c['n'], c['k'], c['seed'])
    Xs = series(X)
    arg = X
    if c['v'][1] == 'V' and c['cont'] == 1:
        arg = np.empty(len(X), dtype=object)
        for i, x in enumerate(X): arg[i] = x
    elif c['v'][1] == 'S' and c['cont'] == 1:
        arg = np.round(X * 10).astype(np.int64); Xs = series(arg)
    elif c['v'][1] == 'S' and c['cont'] == 2:
        arg = np.round(X * 10).astype([np.float32, np.int32, np.int8, np.uint16][c['seed'] % 4]); Xs = series(arg)
    est = guarded(make_est, c)
    with spied() as sp:
        guarded(est.fit, arg, y)
        guarded(est.transform, arg)
    gen = [q for q in sp.calls if q[1] == 'generate_shapelet']; app = [q for q in sp.calls if q[1] == 'apply_all_shapelets']
    if len(gen) != 1 or gen[0][0] != c['v']:
        bad('fit used the implementation {} for data of kind {}', [TYPE[q[0]] for q in gen], TYPE[c['v']])
    if len(app) != 1 or app[0][0] != c['v']:
        bad('transform used the implementation {} for data of kind {}', [TYPE[q[0]] for q in app], TYPE[c['v']])
    if est.transform_type != TYPE[c['v']]:
        bad('transform type resolved to {}', est.transform_type)
    def arrays(what, kw, y):
        A = np.asarray(kw['X'])
        lens = np.asarray(kw['X_len']) if c['v'][1] == 'V' else None
        if A.ndim != 3 or A.dtype != np.float64:
            bad('{}: implementation got an array of rank {} and dtype {}', what, A.ndim, A.dtype)
        ids = []
        for i in range(len(A)):
            n = A.shape[2] if lens is None else int(lens[i])
            hit = [k for k, x in enumerate(Xs) if x.shape[1] == n and np.array_equal(A[i][:, :n], x) and (y is None or y[0][i] == y[1][k])]
            if not hit:
                bad('{}: row {} (length {}, label {}) is no training series with its label and length', what, i, n, None if y is None else y[0][i])
            ids.append(hit[0])
        return ids
    kw = gen[0][2]
    yg = np.asarray(kw['y'])
    ids = arrays('fit', kw, (yg, y))
    ne = c['n'] if c['nsamp'] is None else int(c['n'] * c['nsamp'])
    if len(ids) != ne or len(yg) != ne:
        bad('fit used {} series instead of {}', len(ids), ne)
    if c['nsamp'] is None and ids != list(range(c['n'])):
        bad('fit received the series in another order: {}', ids)
    if c['nsamp'] is not None and c['nsamp'] < 1 and len(set(ids)) != len(ids):
        bad('sub-sampling without replacement repeats series')
    m = c['ml'] or min(x.shape[1] for x in Xs)
    exp = dict(n_shapelets=c['ns'], p_norm=c['pn'], p_min=c['pc'][0], p_max=c['pc'][1], alpha=c['alpha'], use_phase=c['phase'], prime_scheme=c['prime'])
    if c['v'][0] == 'M': exp['max_channels'] = c['mc'] or c['ft']
    if c['v'][1] == 'V': exp['min_len'] = m
    for k, v in exp.items():
        if k not in kw:
            continue
        if kw[k] != v:
            bad('option {} reached the implementation as {} instead of {}', k, kw[k], v)
    if 'shapelet_sizes' in kw and [int(q) for q in kw['shapelet_sizes']] != c['ls']:
        bad('lengths reached the implementation as {}', kw['shapelet_sizes'])
    ids = arrays('transform', app[0][2], None)
    if ids != list(range(c['n'])):
        bad('transform received the series in another order: {}', ids)
    if app[0][2]['use_phase'] != c['phase']:
        bad('transform got phase {}', app[0][2]['use_phase'])
    if app[0][2]['shapelets'] is not est.shapelets_ and not same(app[0][2]['shapelets'], est.shapelets_):
        bad('transform got other shapelets than the fitted ones')
    if c['wrap'] == 0:
        from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
        opt = dict(phase_invariance=c['phase'], prime_dilations=c['prime'], percentiles=c['pc'], min_len=7, n_samples=c['nsamp'], shapelet_lengths=[3, 5])
        Xa = make_data('US', 6, 1, 14, c['seed'], 'float'); ya = np.array([0, 1] * 3)
        chk = dict(min_len=7, alpha=0.35, n_shapelets=7, proba_norm=0.25, percentiles=c['pc'], phase_invariance=c['phase'], prime_dilations=c['prime'], n_samples=c['nsamp'], shapelet_lengths=[3, 5], transform_type='univariate')
        if c['seed'] % 2:
            opt['shapelet_lengths_bounds'] = [3, 7]; opt['lengths_bounds_reduction'] = 0.25
            chk['shapelet_lengths_bounds'] = [3, 7]; chk['lengths_bounds_reduction'] = 0.25
        r = guarded(R_DST_Ridge, n_shapelets=7, alpha=0.35, proba_norm=0.25, random_state=c['rs'], **opt)
        guarded(r.fit, Xa, ya)
        e = guarded(R_DST_Ensemble, n_shapelets_per_estimator=7, shp_alpha=0.35, proba_norm=[0.25, 0.25, 0.25], random_state=c['rs'], max_channels=3, **opt)
        guarded(e.fit, Xa, ya)
        for what, t in [('R_DST_Ridge', r.transformer)] + [('R_DST_Ensemble', q[1]) for q in e.models]:
            for k, v in chk.items():
                if not same_val(getattr(t, k), v) and not (v is None and getattr(t, k) is None):
                    bad('{}: option {} reaches the transformer as {} instead of {}', what, k, getattr(t, k), v)
        for q in e.models:
            if q[1].max_channels != 3:
                bad('R_DST_Ensemble: max_channels reaches the transformer as {}', q[1].max_channels)
    return True

# ------------------------------------------------------------------ C20
def g_c20(rng):
    return dict(n=int(rng.choice([rng.randint(1, 8), rng.randint(16, 80)])), m=int(rng.randint(1, 5)), hi=int(rng.randint(1, 4)), seed=int(rng.randint(0, 10**6)), axis=int(rng.randint(0, 2)), fl=bool(rng.randint(0, 2)))

def r_c20(c):
    from convst.utils import numba_utils as N
    from numba import types
    rs = np.random.RandomState(c['seed'])
    A = rs.randint(-c['hi'], c['hi'] + 1, size=(c['n'], c['m']))
    if c['fl']: A = A * 0.5
    keep = A.copy()
    u, idx, cnt = guarded(N.nb_unique, A, c['axis'])
    rows = [tuple(r) for r in (A.T if c['axis'] == 1 else A).tolist()]
    ref = sorted(set(rows))
    if [tuple(r) for r in np.asarray(u).tolist()] != ref:
        bad('unique slices {} instead of {}', np.asarray(u).tolist(), ref)
    if [int(i) for i in idx] != [rows.index(r) for r in ref]:
        bad('first occurrences {} instead of {}', idx, [rows.index(r) for r in ref])
    if [int(i) for i in cnt] != [rows.count(r) for r in ref]:
        bad('multiplicities {} instead of {}', cnt, [rows.count(r) for r in ref])
    if not np.array_equal(A, keep):
        bad('nb_unique modified its input')
    B = rs.randint(0, 4, size=(c['n'], c['m'])) > 0
    if c['hi'] > 2: B = B[:max(1, c['n'] % 3)]         # few rows as well
    for nd, ax in ((2, 0), (2, 1), (2, None), (1, None)):
        t = types.Array(); t.ndim = nd
        a = types.NoneType() if ax is None else types.Integer()
        f = guarded(N.np_all, t, a)
        D = B if nd == 2 else B[0]
        got = guarded(f, D, ax) if ax is not None else guarded(f, D)
        if not np.array_equal(np.asarray(got), np.all(D, axis=ax)):
            bad('compiled all over axis {} of {} is {}', ax, D.tolist(), np.asarray(got).tolist())
    return c['n'] > 1

# ------------------------------------------------------------------ C22
def g_c22(rng):
    return dict(n=int(rng.randint(1, 5)), ft=int(rng.randint(1, 4)), t=int(rng.randint(6, 16)), seed=int(rng.randint(0, 10**6)), order=int(rng.randint(0, 5)),
                window=str(rng.choice(['boxcar', 'hann', 'tukey', 'bohman'])))

def r_c22(c):
    from convst.transformers import _input_transformers as I
    from scipy.signal import periodogram
    rs = np.random.RandomState(c['seed'])
    X = rs.normal(size=(c['n'], c['ft'], c['t'])) * 3 + 1
    keep = X.copy()
    if not np.array_equal(guarded(I.Raw().fit(X).transform, X), X):
        bad('Raw changes its input')
    D = np.asarray(guarded(I.Derivate(order=c['order']).fit(X).transform, X))
    ref = X
    for _ in range(c['order']):
        ref = ref[:, :, 1:] - ref[:, :, :-1]
    if D.shape != ref.shape or not np.allclose(D, ref, 1e-9, 1e-12):
        bad('derivative of order {} is wrong (shape {})', c['order'], D.shape)
    P = np.asarray(guarded(I.Periodigram(window_type=c['window']).fit(X).transform, X))
    ref = np.array([[periodogram(q, detrend=False, window=c['window'])[1] for q in x] for x in X])
    if P.shape != ref.shape or not np.allclose(P, ref, 1e-9, 1e-12):
        bad('periodogram with window {} is wrong (shape {})', c['window'], P.shape)
    if not np.array_equal(X, keep):
        bad('an input transformation modified its input')
    d = guarded(I.Derivate().fit(X).transform, X)
    if d.shape[2] != c['t'] - 1:
        bad('default derivative has shape {}', d.shape)
    return True

# ------------------------------------------------------------------ C01: normalize_output
_g01, _r01, _ = PK.PROPS['C01']
def x_c01():
    yield dict(normout=True, v='US', n=3, ft=1, t=12, tmin=12, k=1, kind='int', seed=4, rs=2, ns=4, ls=[3], phase=False, prime=False, alpha=0.5, pn=0.5, tt='univariate', mc=None, pc=[5, 10])

def r_c01(c):
    if not c.get('normout'):
        return _r01(c)
    est, X, y = fit_of(c, normalize_output=True)
    raw, _, _ = fit_of(c)
    a, b = guarded(est.transform, X), guarded(raw.transform, X)
    n = float(c['t'])
    ref = b.copy(); ref[:, 1::3] /= n; ref[:, 2::3] /= n
    if not np.allclose(a, ref):
        if np.array_equal(a, b):
            raise Known('normalize-output-ignored', 'normalize_output=True returns the raw argmin and occurrence counts')
        bad('normalize_output=True returns neither raw nor length-normalised features')
    return True

PROPS = {
    'C01': (_g01, r_c01, x_c01),
    'C10': (g_c10, r_c10, x_c10), 'C11': (g_c11, r_c11, None), 'C12': (g_c12, r_c12, None), 'C13': (g_c13, r_c13, None),
    'C14': (g_c14, r_c14, None), 'C15': (g_c15, r_c15, None), 'C16': (g_c16, r_c16, None), 'C17': (g_c17, r_c17, x_c17),
    'C18': (g_c18, r_c18, None), 'C19': (g_c19, r_c19, None), 'C20': (g_c20, r_c20, None), 'C22': (g_c22, r_c22, None),
}
