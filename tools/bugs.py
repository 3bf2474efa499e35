"""Planted changes (see mkbug.py): each breaks one property, compiles and passes the stable tests."""
T = 'convst/transformers/'
BUGS = {}


def bug(name, property, needs, breaks, edits, demo):
    BUGS[name] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)


bug('c01-last-argmin', 'C01', 'a series in which the smallest distance is reached at two positions (periodic or constant parts)',
    'the second feature is the last position of the minimum instead of the first one, for univariate data',
    {T + '_commons.py': [('if _dist < _min or _min==-1.:', 'if _dist <= _min or _min==-1.:')]}, '''
from convst.transformers._univariate_same_length import U_SL_apply_all_shapelets as ap
X = np.array([[[1., 2, 9, 1, 2, 5, 5]]])
sh = (np.array([[1., 2]]), np.array([2]), np.array([1]), np.array([0.5]), np.array([False]))
f = ap(X, sh, False)[0]
check(list(f) == [0., 0., 2.], f)
''')

bug('c01-norm-leak', 'C01', 'one fitted set that mixes normalised and raw shapelets of equal length and dilation on multivariate data of different scales',
    'the normalised multivariate distance uses one mean and deviation for all channels of a window',
    {T + '_multivariate_same_length.py': [('''strides[i_stride,j_stride] = (_str - mean(_str))/(std(_str)+1e-8)''',
                                           '''strides[i_stride,j_stride] = (_str - mean(_str))/(std(strides[:,j_stride])+1e-8)''')]}, '''
from convst.transformers._multivariate_same_length import M_SL_apply_all_shapelets as ap
rs = np.random.RandomState(0)
X = rs.normal(size=(1, 2, 12)); X[:, 1] *= 50
w = X[0, :, 3:7]
v = ((w - w.mean(axis=1, keepdims=True)) / (w.std(axis=1, keepdims=True) + 1e-8)).ravel()
sh = (v, np.array([4]), np.array([1]), np.array([0.5]), np.array([True]), np.array([2]), np.array([0, 1]))
f = ap(X, sh, False)[0]
check(abs(f[0]) < 1e-6 and f[1] == 3, f)
''')

bug('c03-phase-padding', 'C03', 'variable-length multivariate data, phase invariance, and a series shorter than the longest one of its batch',
    'positions wrap around the padded length, so the features depend on the other series of the batch',
    {T + '_multivariate_variable_length.py': [('''            strides = generate_strides_2D(
                X[i_sample, :, :X_len[i_sample]], _length, _dilation, use_phase
            )''', '''            _end = X.shape[2] if use_phase else X_len[i_sample]
            strides = generate_strides_2D(
                X[i_sample, :, :_end], _length, _dilation, use_phase
            )''')]}, '''
from convst.transformers._multivariate_variable_length import M_VL_apply_all_shapelets as ap
rs = np.random.RandomState(0)
a = rs.normal(size=(2, 9)) + 5
X1 = a[None]
X2 = np.zeros((2, 2, 15)); X2[0, :, :9] = a; X2[1] = 1.
sh = (rs.normal(size=8), np.array([4]), np.array([2]), np.array([0.5]), np.array([False]), np.array([2]), np.array([0, 1]))
f1 = ap(X1, sh, True, np.array([9]))[0]
f2 = ap(X2, sh, True, np.array([9, 15]))[0]
check(np.allclose(f1, f2), (f1, f2))
''')

bug('c04-phase-wrap', 'C04', 'variable-length univariate data, phase invariance, and a start so late that the shapelet wraps in a series shorter than the longest',
    'the values of wrapping shapelets are read from the zero padding behind the series',
    {T + '_univariate_variable_length.py': [('''                v = get_subsequence(
                    X[id_sample, 0, :X_len[id_sample]], index,''', '''                v = get_subsequence(
                    X[id_sample, 0], index,''')]}, '''
from convst.transformers import R_DST
rs = np.random.RandomState(3)
X = [rs.normal(size=(1, t)) + 7 for t in (12, 20, 12, 13)]
t = R_DST(n_shapelets=40, shapelet_lengths=[5], proba_norm=0., phase_invariance=True, random_state=0).fit(X, np.array([0, 0, 1, 1]))
v, l, d = t.shapelets_[0], t.shapelets_[1], t.shapelets_[2]
for i in range(len(l)):
    ok = any(np.allclose(v[i, :l[i]], [x[0, (s + k * d[i]) % x.shape[1]] for k in range(l[i])]) for x in X for s in range(x.shape[1]))
    check(ok, 'shapelet %d is no training subsequence' % i)
''')

bug('c05-pair-class', 'C05', 'a class with exactly two members',
    'the threshold of shapelets of a class with two members is taken from the series they were extracted from',
    {T + '_univariate_variable_length.py': [('if loc_others.shape[0] > 1:', 'if loc_others.shape[0] > 2:')]}, '''
import convst.transformers._univariate_variable_length as m
rs = np.random.RandomState(0)
X = np.zeros((4, 1, 10)); X[:] = rs.normal(size=X.shape); y = np.array([0, 0, 1, 1])
seen = []
sub, dist = m.get_subsequence, m.compute_shapelet_dist_vector
def s(x, *a): seen.append(('s', x.tolist())); return sub(x, *a)
def c(x, *a): seen.append(('d', x.tolist())); return dist(x, *a)
m.get_subsequence, m.compute_shapelet_dist_vector = s, c
m.U_VL_generate_shapelet(X, y, 6, np.array([3]), 1, 0.5, 5, 10, 0.5, False, 10, np.array([10] * 4), False)
src = [v for k, v in seen if k == 's']; tst = [v for k, v in seen if k == 'd']
check(len(src) > 0 and all(a != b for a, b in zip(src, tst)), 'threshold from the series itself')
''')

bug('c06-prime-square', 'C06', 'a prime scheme whose bound reaches the square of a prime (9, 25, 49 ...)',
    'squares of odd primes (and products of two neighbouring ones) are classified as primes',
    {T + '_commons.py': [('for i in range(3, int64(sqrt(n)) + 1, 2):', 'for i in range(3, int64(sqrt(n)), 2):')]}, '''
from convst.transformers._commons import prime_up_to
check(list(prime_up_to(60)) == [1] + [p for p in range(2, 61) if all(p % k for k in range(2, p))], list(prime_up_to(60)))
''')

bug('c07-shared-counter', 'C07', 'two threads in the last loop of the univariate generation',
    'the kept shapelets are collected through a shared counter, so their order depends on the order of the iterations',
    {T + '_univariate_same_length.py': [('''    mask_values = ones(n_shapelets, dtype=bool_)
    for i in prange(n_shapelets):
        if _all(values[i] == 0):
            mask_values[i] = False
''', '''    mask_values = zeros(n_shapelets, dtype=int64)
    n_kept = 0
    for i in prange(n_shapelets):
        if not _all(values[i] == 0):
            mask_values[n_kept] = i
            n_kept += 1
    mask_values = mask_values[:n_kept]
''')]}, '''
import convst.transformers._univariate_same_length as m
rs = np.random.RandomState(0)
X = rs.normal(size=(4, 1, 30)); y = np.array([0, 0, 1, 1])
N = 23
def run(rev):
    seen = [0]
    def prange(n, *a):
        seen[0] += n == N
        return reversed(range(n)) if (rev and n == N and seen[0] == rev) else range(n, *a)
    m.prange = prange
    return m.U_SL_generate_shapelet(X, y, N, np.array([5]), 1, 0.5, 5, 10, 0.5, False, False), seen[0]
a, k = run(0)
b, _ = run(k)      # the last loop over the shapelets in another order
check(all(np.array_equal(p, q) for p, q in zip(a, b)), 'the result depends on the order of the iterations')
''')

bug('c08-no-wrap', 'C08', 'a multivariate shapelet sampled nearer to the start of its series than its excluded span (earlier positions wrap)',
    'positions before the start of the series exclude position 0 instead of the wrapped ones',
    {T + '_multivariate_same_length.py': [('(index-(j*_dilation))%n_timestamps', 'max(index-(j*_dilation), 0)')]}, '''
import convst.transformers._multivariate_same_length as m
rs = np.random.RandomState(0)
X = rs.normal(size=(1, 1, 6)) + 9; y = np.array([0])
L = 3; d = 1
starts = []
sub = m.get_subsequence
def s(x, i, *a): starts.append(int(i)); return sub(x, i, *a)
m.get_subsequence = s
m.ones_ = m.ones
for seed in range(40):
    del starts[:]
    free = set(range(6))
    m.M_SL_generate_shapelet(X, y, 6, np.array([6]), seed, 0.0, 5, 10, 1.0, True, 1, False)
    for i in starts:
        check(i in free, 'an excluded position was sampled')
        for j in range(6 - 1):
            free.discard((i - j) % 6); free.discard((i + j) % 6)
    check(not free or len(starts) == 6, 'a position that was never excluded is not used')
''')

bug('c09-dilation-prefix', 'C09', 'a multivariate fit in which some shapelet could not be sampled (small search space, high alpha)',
    'the dilations of the kept shapelets are the first ones, not those of the kept shapelets',
    {T + '_multivariate_variable_length.py': [('''        dilations[mask_return],
        threshold[mask_return],''', '''        dilations[:lengths.shape[0]],
        threshold[mask_return],''')]}, '''
from convst.transformers import R_DST
rs = np.random.RandomState(3)
X = [rs.normal(size=(2, t)) + 7 for t in (12, 14)]
t = R_DST(n_shapelets=60, shapelet_lengths=[3], alpha=1.0, proba_norm=0., random_state=0).fit(X, np.array([0, 1]))
v, l, d, _, _, nc, ch = t.shapelets_
check(len(l) < 60, 'no shapelet dropped')
a = np.concatenate(([0], np.cumsum(l * nc))); b = np.concatenate(([0], np.cumsum(nc)))
for i in range(len(l)):
    w = v[a[i]:a[i + 1]].reshape(nc[i], l[i]); c = ch[b[i]:b[i + 1]]
    ok = any(np.allclose(w, x[c][:, s:s + (l[i] - 1) * d[i] + 1:d[i]]) for x in X for s in range(x.shape[1] - (l[i] - 1) * d[i]))
    check(ok, 'shapelet %d does not match its dilation' % i)
''')

bug('c10-bounds', 'C10', 'length bounds whose upper end differs from the lower one by more than one',
    'the upper length bound is left out of the range of lengths',
    {T + 'rdst.py': [('max_l = max(4,max(b0+1,b1+1))', 'max_l = max(4,max(b0+1,b1))')]}, '''
from convst.transformers import R_DST
t = R_DST(shapelet_lengths_bounds=[4, 10], lengths_bounds_reduction=0.0)
check(list(t._set_lengths(50)) == list(range(4, 11)), t._set_lengths(50))
''')

bug('c12-scale', 'C12', 'multichannel data whose channels have different scales', 'every channel is divided by the deviation of the whole sample',
    {T + '_input_transformers.py': [('x_new[i] = (x[i] - x[i].mean()) / (x[i].std() + 1e-8)', 'x_new[i] = (x[i] - x[i].mean()) / (x.std() + 1e-8)')]}, '''
from convst.transformers._input_transformers import Z_normalizer
rs = np.random.RandomState(0)
X = rs.normal(size=(3, 2, 12)); X[:, 1] *= 40
Z = Z_normalizer().fit(X).transform(X)
check(np.allclose(Z, (X - X.mean(axis=2, keepdims=True)) / (X.std(axis=2, keepdims=True) + 1e-8)), 'not normalised per channel')
''')

bug('c13-extend', 'C13', 'a train/test split given as lists of series (variable length)',
    'resampling appends the test series to the train list of the caller',
    {'convst/utils/experiments_utils.py': [('''        all_data = X_train + X_test
''', '''        all_data = X_train
        all_data.extend(X_test)
''')]}, '''
from convst.utils.experiments_utils import _resample
rs = np.random.RandomState(0)
Xa, Xb = [rs.normal(size=(1, 5)) for _ in range(4)], [rs.normal(size=(1, 6)) for _ in range(4)]
y = np.array([0, 0, 1, 1])
r1 = _resample(Xa, y, Xb, y, 3)
check(len(Xa) == 4 and len(Xb) == 4, 'the inputs were modified')
''')

bug('c14-first-alpha', 'C14', 'a ridge penalty chosen by cross-validation that is not the first one of the list',
    'the model weight is the leave-one-out accuracy of the first penalty instead of the chosen one',
    {'convst/classifiers/rdst_ensemble.py': [('alpha_idx = np.where(self.alphas == self.alpha_)[0]', 'alpha_idx = np.where(self.alphas <= self.alpha_)[0]')]}, '''
from convst.classifiers.rdst_ensemble import _internalRidgeCV
m = _internalRidgeCV.__new__(_internalRidgeCV)
m.store_cv_values = True
m.alphas = np.array([0.1, 1., 10.]); m.alpha_ = 1.
m.classes_ = np.array([3, 8])
y = np.array([3, 8, 8, 3])
cv = np.zeros((4, 1, 3)); cv[:, 0, 0] = [1, -1, 1, -1]; cv[:, 0, 1] = [-1, 1, 1, -1]; cv[:, 0, 2] = [1, 1, 1, 1]
m.cv_values_ = cv
check(m.get_loocv_train_acc(y) == 1.0, m.get_loocv_train_acc(y))
''')

bug('c15-small-std', 'C15', 'a feature column that varies by less than one millionth', 'columns that vary only a little are dropped as constant',
    {T + '_input_transformers.py': [('self.usefull_atts = np.where(np.std(X, axis=0) != 0)[0]', 'self.usefull_atts = np.where(np.std(X, axis=0) > 1e-6)[0]', 0)]}, '''
from convst.transformers._input_transformers import c_StandardScaler
X = np.array([[1., 2., 0.], [2., 2., 1e-8], [4., 2., 3e-8]])
s = c_StandardScaler().fit(X)
check(s.transform(X).shape == (3, 2), s.transform(X).shape)
''')

bug('c16-late-seed', 'C16', 'two fits in one process (or any earlier use of the generator) with univariate data of variable length',
    'lengths, dilations and flags are drawn before the generator is seeded',
    {T + '_univariate_variable_length.py': [('''    # Fix the random seed
    seed(r_seed)
    
    #Initialize shapelets
    values, lengths, dilations, threshold, normalize = \\
    U_VL_init_random_shapelet_params(
        n_shapelets, shapelet_sizes, min_len, p_norm, prime_scheme
    )
''', '''    #Initialize shapelets
    values, lengths, dilations, threshold, normalize = \\
    U_VL_init_random_shapelet_params(
        n_shapelets, shapelet_sizes, min_len, p_norm, prime_scheme
    )
    # Fix the random seed
    seed(r_seed)
''')]}, '''
from convst.transformers import R_DST
rs = np.random.RandomState(3)
X = [rs.normal(size=(1, t)) for t in (12, 20, 12, 13)]; y = np.array([0, 0, 1, 1])
r = []
for s in (1, 2):
    np.random.seed(s)
    r.append(R_DST(n_shapelets=20, shapelet_lengths=[3, 5], random_state=0).fit(X, y).shapelets_)
check(all(np.array_equal(a, b) for a, b in zip(*r)), 'the fit depends on the global generator')
''')

bug('c17-renorm', 'C17', 'transforming with a set that holds normalised univariate shapelets',
    'transform normalises the values of the fitted shapelets again, in place',
    {T + '_univariate_same_length.py': [('''                    _values = values[i_shp, :_length]
                    
                    X_new''', '''                    _values = values[i_shp, :_length]
                    _values[:] = (_values - mean(_values))/(std(_values)+1e-8)
                    
                    X_new''')]}, '''
from convst.transformers import R_DST
rs = np.random.RandomState(3)
X = rs.normal(size=(4, 1, 30)); y = np.array([0, 0, 1, 1])
t = R_DST(n_shapelets=20, shapelet_lengths=[5], proba_norm=1.0, random_state=0).fit(X, y)
v = t.shapelets_[0].copy(); t.transform(X)
check(np.array_equal(v, t.shapelets_[0]), 'transform changed the fitted shapelets')
''')

bug('c18-match-wrap', 'C18', 'no phase invariance and a best match whose last points lie behind the last possible start',
    'the highlighted points wrap around the number of candidate starts instead of the series length',
    {'convst/interpreters/rdst_interpreter.py': [('% X.shape[0] for i in range(self.length)]', '% c.shape[0] for i in range(self.length)]')]}, '''
import convst.interpreters.rdst_interpreter as m
class Ax:
    def plot(self, *a, **k): pass
    def scatter(self, x, y, **k): self.x = list(x)
ax = Ax()
x = np.array([0., 0, 0, 0, 0, 1, 2, 3])
m.Shapelet(np.array([1., 2, 3]), 3, 1, False, 0.1, False).plot_on_X(x, ax=ax)
check(ax.x == [5, 6, 7], ax.x)
''')

bug('c19-swapped-options', 'C19', 'multivariate variable-length data with proba_norm different from alpha',
    'the normalisation probability and alpha are exchanged for multivariate variable-length data',
    {T + 'rdst.py': [('''                X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                self.percentiles[0], self.percentiles[1], self.alpha,
                self.phase_invariance, max_channels, min_len, X_len,''', '''                X, y, self.n_shapelets, shapelet_lengths, seed, self.alpha,
                self.percentiles[0], self.percentiles[1], self.proba_norm,
                self.phase_invariance, max_channels, min_len, X_len,''')]}, '''
from convst.transformers import R_DST
rs = np.random.RandomState(3)
X = [rs.normal(size=(2, t)) for t in (12, 20, 12, 13)]; y = np.array([0, 0, 1, 1])
t = R_DST(n_shapelets=20, shapelet_lengths=[5], proba_norm=1.0, alpha=0.3, random_state=0).fit(X, y)
check(np.all(t.shapelets_[4]), 'not every shapelet is normalised')
''')

bug('c20-unstable-sort', 'C20', 'at least 17 rows with ties in a column that is not the first one sorted',
    'the uniqueness helper sorts columns with an unstable sort, so rows come in the wrong order and equal rows are separated',
    {'convst/utils/numba_utils.py': [('sorter = data[:, i].argsort(kind="mergesort")', 'sorter = data[:, i].argsort()')]}, '''
from convst.utils.numba_utils import nb_unique
rs = np.random.RandomState(0)
for n in (20, 60, 300):
    a = rs.randint(0, 3, size=(n, 3))
    u, i, c = nb_unique(a)
    U, I, C = np.unique(a, axis=0, return_index=True, return_counts=True)
    check(np.array_equal(u, U) and np.array_equal(i, I) and np.array_equal(c, C), 'differs from numpy')
''')

bug('c21-phase-norm', 'C21', 'the distance vector with phase invariance and normalisation together',
    'the normalised circular distance vector stops at the last window that does not wrap',
    {T + '_commons.py': [('''    c = _generate_strides_1D_phase(x, length, dilation)
    x_conv = zeros(c.shape[0])
    for i in prange(x_conv.shape[0]):
        x0 = ''', '''    c = _generate_strides_1D_phase(x, length, dilation)
    x_conv = zeros(c.shape[0])
    for i in prange(x_conv.shape[0]-(length-1)*(dilation-1)):
        x0 = ''')]}, '''
from convst.transformers._commons import compute_shapelet_dist_vector as dv
rs = np.random.RandomState(0)
x = rs.normal(size=12); v = rs.normal(size=4)
d = dv(x, v, 4, 2, True, True)
e = []
for i in range(12):
    w = np.array([x[(i + 2 * j) % 12] for j in range(4)]); e.append(np.abs((w - w.mean()) / (w.std() + 1e-8) - v).sum())
check(np.allclose(d, e), (d, e))
''')

bug('c22-order', 'C22', 'a derivative of order at least 2', 'the k-th pass of the derivative transformation differentiates k times',
    {T + '_input_transformers.py': [('''            X = np.diff(X)''', '''            X = np.diff(X, n=i+1)''')]}, '''
from convst.transformers._input_transformers import Derivate
X = np.arange(24.).reshape(1, 2, 12) ** 3
check(np.allclose(Derivate(order=2).fit(X).transform(X), np.diff(np.diff(X))), 'wrong order')
''')

bug('c02-last-start', 'C02', 'a shapelet sampled at the very last admissible start of a series of maximal length',
    'the generation for univariate data admits a start one behind the last one, so values are read behind the series',
    {T + '_univariate_same_length.py': [('d_shape = n_timestamps-(_length-1)*_dilation', 'd_shape = min(n_timestamps, n_timestamps-(_length-1)*_dilation+_dilation-1)')]}, '''
from convst.transformers import R_DST
rs = np.random.RandomState(3)
X = rs.normal(size=(3, 1, 12)); y = np.array([0, 0, 1])
for s in range(30):
    try:
        R_DST(n_shapelets=20, shapelet_lengths=[4], proba_norm=0.0, random_state=s).fit(X, y)
    except IndexError as e:
        check(False, e)
''')

bug('c11-percentile-equal', 'C11', 'a percentile pair of equal values', 'percentile pairs of two equal values are refused',
    {T + 'rdst.py': [('if percentiles[0] <= percentiles[1]:', 'if percentiles[0] < percentiles[1]:')]}, '''
from convst.transformers import R_DST
check(list(R_DST(percentiles=[5, 5]).percentiles) == [5, 5], 'refused')
''')
