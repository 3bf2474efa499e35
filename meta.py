"""What each check claims: level, technique, assumptions (used by check.py and tools/gen_manifest.py)."""
LONG = ('apply_M', 'apply_', 'gen_', 'init_')      # tasks to start first
TRUSTED = [
    'the verification condition generator /verif/cdv (symbolic execution of the Python AST of /repo, loop summaries, numpy models)',
    'the semantics of numpy and of the Python builtins as modelled in cdv/npmodel.py',
    'z3 and cvc5',
]
ASSUME = [
    'machine integers are treated as mathematical integers and floating point as real arithmetic (no rounding, NaN or infinity)',
    'numba compiles the Python source faithfully; the run-time part executes the same source without numba (stand-in decorators in runtime/stubs)',
    'termination is not proved',
]
T_PROOF = 'contract-based deductive verification (verification conditions generated from /repo\'s source, discharged by z3/cvc5)'
T_BOUND = 'run-time checked contracts on the real functions (bounded stand-in for deductive verification)'
PROPS = {}


def P(id, level, note, assume=(), trusted=()):
    PROPS[id] = dict(level=level, note=note, assume=list(assume), trusted=list(trusted),
                     technique=T_PROOF if level == 'proof' else T_BOUND)


B = 'Bounded: the contracts are evaluated on the real code on generated inputs; nothing is proved for other inputs.'
for i in range(1, 23):
    P('C%02d' % i, 'exploration', B)
KERNEL_PRE = ('the kernels are proved for inputs that meet their preconditions; the fit_* tasks of C02 prove that R_DST.fit and transform meet them for every training set and '
              'option in the documented ranges (n_shapelets >= 1, percentiles within 0..100, alpha in [0,1], max_channels in 1..n_features, min_len at most the shortest series, at least one sub-sampled series, series of at least 3 timestamps)')
RNG = 'numpy.random draws (choice, random, uniform, seed) return an arbitrary admissible value (numba and numpy implement them as documented)'
PERC = 'np.percentile is an uninterpreted function of the multiset of the values (the same symbol in the code and in the contract)'
SK = ('contracts assumed for the libraries around: sklearn.utils.resample without replacement selects distinct positions, the same for every argument, from the given generator; check_random_state returns one '
      'generator per random_state; fit of an sklearn estimator makes a new state from the old one and its arguments, predict/transform are functions of that state; BaseEstimator, check_is_fitted and clone as documented')
REST = ' The run-time form of the contracts on the public API stays a bounded complement.'
for id, note, assume in (
    ('C01', 'For the 8 variants (uni/multivariate, equal/variable length, with/without phase invariance), apply_all_shapelets is proved to write, for every series and '
            'every shapelet, min / first argmin / occurrence count of the distance vector of the contract, at columns 3i..3i+2, nothing else and every column; R_DST.transform is proved to return that matrix for the series given.', (KERNEL_PRE,)),
    ('C02', 'Every array access, slice, shape, division, choice and internal error of every kernel reached by fit and transform is an obligation, proved for all inputs that meet the preconditions; '
            'the fit_* tasks prove that R_DST.fit and R_DST.transform establish these preconditions.', (KERNEL_PRE, RNG, SK)),
    ('C03', 'Corollary of the C01 contracts: the row of series i is given by a specification that mentions only the true part of series i and the shapelets; the padding helpers are proved to keep the true part.', (KERNEL_PRE,)),
    ('C04', 'For the 8 variants: the values written for a shapelet are the (normalised when flagged) subsequence of one series at one start for all its channels, the span inside the true length.', (KERNEL_PRE, RNG)),
    ('C05', 'For the 8 variants: the threshold is uniform between the two percentiles of the distance vector of the shapelet to a series of the same class, another one whenever there is one.', (KERNEL_PRE, RNG, PERC)),
    ('C06', 'is_prime, prime_up_to, choice_log and the four parameter initialisers: exactness of the primality helpers, range and scheme of every dilation, every admissible value can be drawn.',
            (KERNEL_PRE, RNG, 'exp2/log2 are the real functions (monotone, mutually inverse); rounding of log2/exp2 is outside the proof, the bounded part executes it')),
    ('C07', 'For every prange loop of the kernels: no place written by one iteration is written or read by another one.', (KERNEL_PRE, RNG)),
    ('C08', 'For the 8 variants: a start is free when it is drawn, sampling excludes exactly the positions of the statement, and a shapelet is given up only when no admissible start is left (or its values are zero).', (KERNEL_PRE, RNG)),
    ('C09', 'For the 8 variants: shapes, ranges and flags of the parameters, distinct in-range channels, every slot handled by one iteration, and the compaction keeps each row together (flat arrays with prefix-sum offsets).', (KERNEL_PRE, RNG)),
    ('C10', 'R_DST._validate_shapelet_lengths is proved, for arrays of integers, arrays of reals and the four kinds of bounds, to return exactly the documented lengths, all between 2 and the shortest length (or to raise).',
            ('the shortest series has at least 3 timestamps',)),
    ('C11', 'Every argument check (check_array_1D/2D/3D, check_is_numeric, check_is_boolean, check_n_jobs, _validate_percentiles, _validate_transform_type, the reduction factor) is executed symbolically on every kind of argument: '
            'it returns exactly when the argument is well formed, unchanged in value, and raises ValueError otherwise.', ('a list given to check_array_* holds arrays of one rank', SK)),
    ('C12', 'The z-normalisation helpers and the loader of a split are proved to give (x-mean)/(std+1e-8) per sample and channel, for all shapes, and to leave the input alone when out of place.',
            ('mean and std are uninterpreted functions of the sequence of the values; file readers are external',)),
    ('C14', 'R_DST_Ensemble.fit, predict, the weight of a member and the parallel helpers: member i is made of transformation i, a shapelet transform with probability i and a ridge classifier, fitted on the training data; '
            'its weight is its leave-one-out accuracy to the power a_w; the prediction is the label of the largest weighted sum.',
            (SK, 'RidgeClassifierCV keeps alpha_ among alphas and, with store_cv_values, cv_values_ are the leave-one-out decisions', 'all members see the same labels, hence the same classes_')),
    ('C15', 'The two scalers are proved to keep exactly the columns that vary on the fitting data, in order, and to apply the stored selection, mean and deviation afterwards; R_DST_Ridge composes one transformer, one scaler and one classifier.',
            ('the standard deviation is not negative, and zero exactly when all the values are equal', SK)),
    ('C16', 'fit under contract for every variant: every draw uses the generator built from random_state, the compiled generator is seeded from it before any kernel draws, no kernel and no helper seeds or draws otherwise, transform draws nothing; '
            'the ensemble draws one seed per member before the jobs run.', (SK, RNG, 'the compiled (numba) global stream depends only on the seed given to it and on the sequence of draws (sequential execution)')),
    ('C17', 'fit and transform under contract for every variant: the frame of the caller\'s arrays, of the options and (transform) of the fitted state is proved unchanged; the kernels write only to their own arrays.', (SK,)),
    ('C19', 'fit and transform under contract for every variant: the class of implementation chosen, its pairing, and the role of every argument given to the kernels are proved for every data kind.', (SK, KERNEL_PRE)),
    ('C20', 'nb_unique: the sorting loop by an annotated invariant (a permutation of the slices, sorted by the columns done so far, ties by original index), the boundaries, and lemmas on the lexicographic order by induction: '
            'distinct slices in order, first occurrences, multiplicities; the all-reduction over an axis is the conjunction, for every shape.',
            ('argsort(kind=mergesort) returns the stable sorting permutation, nonzero the places in increasing order', 'the numba typing objects given to the overload are of the kind they say', 'a block of k equal slices has k members (cardinality of the image under the proved permutation)')),
    ('C21', 'Every obligation of the distance, stride, subsequence and distance-vector contracts is discharged for all inputs; the helper agreement is a lemma over these contracts.', ()),
    ('C22', 'Raw, Derivate (any order, by a loop invariant) and Periodigram are proved to act on each series and channel on its own and to keep shape and order.', ('scipy.signal.periodogram is an uninterpreted function of one sequence and the window',)),
):
    P(id, 'proof', note + REST, assume)

NOT_APPLICABLE = {
    'C23': 'the computation is pandas group-bys and scipy tests over a results table: no contract within reach of the verifier expresses '
           'those library operations (scipy is not even installed for the interpreter that holds pandas), and assuming them would assume the property',
    'C24': 'depends on the per-thread random streams and the scheduler of the numba runtime, which sequential contracts cannot express '
           '(numba is not installed, so it cannot be run either)',
}
