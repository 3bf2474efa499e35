"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
T='convst/transformers/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))
KALL=[T+'_commons.py',T+'_univariate_same_length.py',T+'_univariate_variable_length.py',T+'_multivariate_same_length.py',T+'_multivariate_variable_length.py']
NOTEST='The 22 tests that run only exercise the argument checkers; the transformer tests need numba/aeon data and compare a handful of fixed arrays, so '
p('C01','Transform features are min, first argmin and occurrence count',
 'For every series and every fitted shapelet, the three consecutive output columns of a transform are the minimum of the distance vector between the shapelet and the (dilated, z-normalised when the shapelet asks for it, circular when phase invariance is on) subsequences of the series, the first position reaching that minimum, and the number of positions whose distance is at most the shapelet threshold. The distance is the sum of absolute differences, summed over the channels of the shapelet for multivariate data, and columns 3i..3i+2 belong to shapelet i whatever the mix of lengths, dilations and normalisation flags in the set.',
 ['inputs','configurations'],'all series, all shapelet sets (any mix of length, dilation, normalisation, channel subsets, thresholds), both phase modes, all four data variants',
 NOTEST+'no test ranges over mixes of shapelet parameters, ties, constant subsequences or phase wrap-around.',
 KALL,[('distance kernels and subsequence extraction',T+'_commons.py'),('grouping of shapelets by (length, dilation) and feature write-back','*_apply_all_shapelets in the four variant modules')],
 [('X_new','feature matrix, three columns per shapelet','*_apply_all_shapelets'),('strides','subsequences of one series, normalised in place after the raw shapelets have been served','*_apply_all_shapelets')],['R_DST.transform','compute_shapelet_dist_vector'])
p('C02','Compiled kernels stay inside their arrays',
 'For every accepted configuration and every dataset whose series are at least as long as the minimum length used at fit time, fitting and transforming never read or write an array outside its bounds, never use an array slice of the wrong size, never divide by zero and never fail with an internal error. This includes the smallest legal series, shapelets as long as the series, a single sample, a class with one member, and a fully exhausted sampling mask.',
 ['inputs','configurations'],'all array sizes, shapelet lengths, dilations, channel counts, alpha, percentiles and masks reachable through R_DST.fit / R_DST.transform',
 'The kernels are compiled by numba without bounds checking, so an out-of-range access silently reads other memory instead of failing a test.',
 KALL+[T+'rdst.py'],[('span bound (length-1)*dilation < n_timestamps','*_init_random_shapelet_params'),('flat offsets into values / channel ids','multivariate modules'),('length validation','R_DST._check_params')],(),['R_DST.fit','R_DST.transform'])
p('C03','A series is transformed independently of padding and of its neighbours',
 'The features of a series depend only on that series\' own true timestamps and on the fitted shapelets: transforming it alone, in any position of any batch, padded by longer neighbours in a variable-length set, or through the equal-length path gives the same row. Rows of the output are in the order of the input series.',
 ['inputs','histories'],'all batches, orders and paddings of series, all shapelet sets, both phase modes',
 NOTEST+'padding values, batch composition and order are never varied.',
 KALL+[T+'rdst.py'],[('X[i, :, :X_len[i]] truncation','variable length kernels'),('_format_uneven_timestamps',T+'rdst.py')],(),['R_DST.transform'])
p('C04','Fitted shapelets are genuine training subsequences',
 'The values of every fitted shapelet are exactly the subsequence of one training series (the same series and start position for all of its channels) taken with the shapelet\'s own length and dilation, z-normalised when and only when the shapelet is flagged as normalised. Without phase invariance the whole span lies inside the true (unpadded) length of that series; with it, positions wrap around that true length.',
 ['inputs','configurations','schedules'],'all training sets, labels, seeds and configurations, four variants',
 NOTEST+'nothing traces a sampled shapelet back to the training data.',
 KALL,[('candidate mask, choice of sample and index, get_subsequence','*_generate_shapelet')],(),['R_DST.fit -> shapelets_'])
p('C05','Thresholds come from the distance profile to a same-class sample',
 'The occurrence threshold of every fitted shapelet lies between the two configured percentiles of the distance vector computed between the shapelet and one training series of the same class, which differs from the series the shapelet was extracted from whenever that class has another member in the training set used.',
 ['inputs','configurations'],'all training sets, labels, percentile pairs and seeds, four variants',
 NOTEST+'no test recomputes a threshold.',
 KALL,[('loc_others / id_test / percentile / uniform','*_generate_shapelet')],(),['R_DST.fit -> shapelets_'])
p('C06','Dilations are admissible and the prime scheme yields exactly primes',
 'Every fitted dilation d is an integer of at least 1 such that (length-1)*d does not exceed the shortest training length minus one; under the prime scheme it is moreover 1 or a prime, and every such value within the bound can be drawn. The primality helpers classify every integer from 1 on exactly (treating 1 as admissible and 0 as not) and list them completely in increasing order.',
 ['inputs','configurations'],'all integers n>=0 for the helpers, all lengths and series sizes for the sampler',
 'A test can only try finitely many integers and seeds.',
 KALL,[('is_prime / prime_up_to / choice_log',T+'_commons.py'),('upper_bounds','*_init_random_shapelet_params')],(),['is_prime','prime_up_to','choice_log','R_DST.fit -> shapelets_'])
p('C07','Parallel iterations are independent',
 'In every loop that is handed to threads, distinct iterations write distinct locations and read nothing another iteration writes, so the transform of a given fitted set and the shapelet bookkeeping do not depend on the number of threads or on the order in which iterations run.',
 ['schedules','inputs'],'all interleavings and iteration orders of the parallel loops, all inputs',
 'Tests run one schedule; a race would only show under particular thread timings.',
 KALL+[T+'_input_transformers.py'],[('prange over dilations','*_generate_shapelet'),('prange over samples','*_apply_all_shapelets, z_norm_all_samples')],(),['R_DST.fit','R_DST.transform'])
p('C08','Sampling respects the alpha-similarity mask',
 'Among shapelets with the same dilation and normalisation flag, a new one never starts at a position excluded by an earlier one: sampling a shapelet of length l at index i of a series excludes the positions i-j*d and i+j*d (modulo the series length) for all j below l - int(max(1,(1-alpha)*l_min)), l_min being the smallest length with that dilation, on that series (and, for multivariate data, on the channels used, where a start needs at least a fraction alpha of its channels free). Nothing else is ever excluded, so shapelets are only dropped when no admissible position is left or their values are identically zero.',
 ['inputs','histories'],'all sampling histories, all alpha, four variants',
 'The property speaks about the whole history of earlier samples; no test inspects two shapelets together.',
 KALL,[('mask_sampling updates and where(mask)','*_generate_shapelet')],[('mask_sampling','admissible start positions per (norm, dilation, sample[, channel])','*_generate_shapelet')],['R_DST.fit -> shapelets_'])
p('C09','The fitted shapelet set is internally consistent',
 'The arrays describing the fitted shapelets agree: same number of entries (at most the requested number), lengths taken from the allowed lengths, normalisation flags boolean (all set for probability 1, none for probability 0), and, for multivariate data, between 1 and max_channels distinct in-range channel ids per shapelet with the flat value and channel arrays having exactly the summed sizes. Removing shapelets that could not be sampled keeps every remaining shapelet\'s values, channels, length, dilation, threshold and flag together.',
 ['inputs','configurations'],'all training sets, seeds and configurations, in particular those where some shapelets cannot be sampled',
 NOTEST+'exhausted masks never occur in them.',
 KALL,[('mask_values / mask_return compaction','*_generate_shapelet')],(),['R_DST.fit -> shapelets_'])
p('C10','Shapelet lengths are resolved within the series length',
 'Whatever lengths, relative lengths or bounds the user gives, fitting either raises an error or uses integer lengths between 2 and the shortest training length: absolute lengths unchanged when they fit, lengths that do not fit replaced by half the series length (never below 2), fractional lengths as the floor of the fraction of the series length, and bounds expanded to the documented range thinned according to the reduction factor. All lengths fit for every series of at least 3 timestamps.',
 ['inputs','configurations'],'all length arrays, bounds, reductions and series lengths',
 'Only a handful of default settings are ever run.',
 [T+'rdst.py'],[('_set_lengths, _check_params',T+'rdst.py')],(),['R_DST.fit'])
p('C11','Input validation accepts exactly well-formed arguments',
 'The validation helpers return their argument with unchanged values exactly when it is well formed (array rank, non-empty, enough timestamps, univariate when required, numeric, boolean, percentile pair in order, known transform type, reduction below 1) and raise ValueError otherwise; every documented transform type is accepted. The number of jobs resolves to 1 for None, to at most the CPU count for positive values and counts from the CPU count down for negative ones.',
 ['inputs'],'all argument values and shapes',
 'The unit tests try a few shapes; boundary sizes (exactly min_timestamps, zero-size axes, bools, numpy scalars) are unbounded.',
 ['convst/utils/checks_utils.py',T+'rdst.py'],[('check_* helpers','convst/utils/checks_utils.py'),('_validate_transform_type, _validate_percentiles',T+'rdst.py')],(),['check_array_3D','check_array_2D','check_array_1D','check_n_jobs','R_DST.__init__'])
p('C12','z-normalisation helpers normalise each channel on its own',
 'The z-normalisation helpers replace each channel x of each sample by (x - mean(x)) / (std(x) + 1e-8) computed over that channel only, for every sample and channel including constant ones, keeping shape and order; the out-of-place helpers leave their input untouched and the dataset loaders apply the normalisation to train and test data only when it is requested.',
 ['inputs'],'all datasets of any shape, including constant channels and ragged lists',
 'The dataset tests need network data; no test covers constant channels or multichannel samples.',
 [T+'_input_transformers.py','convst/utils/dataset_utils.py'],[('z_norm_one_sample, z_norm_all_samples',T+'_input_transformers.py'),('z_norm_3D, z_norm_3D_list, load_UCR_UEA_dataset_split','convst/utils/dataset_utils.py')],(),['Z_normalizer.transform','load_UCR_UEA_dataset_split'])
p('C13','Resampling is a class-preserving partition',
 'Resampling a train/test split returns a train and a test set that together hold every original (series, label) pair exactly once, with the per-class counts of the original train and test sets, deterministically for a given seed and without modifying its inputs. The cross-validation splitter built on it yields, for every fold, indices whose series are exactly those of the (re)sampled split, fold 0 being the original split.',
 ['inputs'],'all labelled train/test sets (array or list, univariate or multivariate), all seeds',
 'No test runs the resampler at all.',
 ['convst/utils/experiments_utils.py'],[('_resample','convst/utils/experiments_utils.py'),('_sklearn_cv.split, cross_validate_UCR_UEA.score','convst/utils/experiments_utils.py')],(),['_resample','_sklearn_cv.split','cross_validate_UCR_UEA.score'])
p('C14','The ensemble predicts training labels by weighted vote',
 'R_DST_Ensemble predicts, for each series, the training label with the largest sum over models of class probability times the model weight, the weight being the model\'s leave-one-out training accuracy raised to the power a_w; predictions are therefore always labels seen in training, whatever the label values. Each model is trained on its own input transformation with its own normalisation probability.',
 ['inputs','configurations'],'all label sets (including non 0..k-1 labels), numbers of models, weights and probabilities',
 'The ensemble is not exercised by any runnable test, and only 0..k-1 labels hide an index/label mix-up.',
 ['convst/classifiers/rdst_ensemble.py'],[('fit / predict / get_loocv_train_acc / predict_proba','convst/classifiers/rdst_ensemble.py')],(),['R_DST_Ensemble.fit','R_DST_Ensemble.predict'])
p('C15','Scaling and classification use the same feature columns',
 'The scalers placed before the linear classifier keep exactly the columns that vary on the data they were fitted on, and apply that same selection, in the same order, with statistics from the fitting data to everything transformed later. R_DST_Ridge trains its classifier on the transform of the training series and predicts with the same fitted transformer, scaler and classifier, and its score is the accuracy of those predictions.',
 ['inputs','histories'],'all feature matrices, including constant columns and test data varying elsewhere',
 'Constant columns and diverging test data never occur in the tests.',
 [T+'_input_transformers.py','convst/classifiers/rdst_ridge.py'],[('usefull_atts',T+'_input_transformers.py'),('fit / predict / score','convst/classifiers/rdst_ridge.py')],(),['c_StandardScaler','c_MinMaxScaler','R_DST_Ridge'])
p('C16','All randomness flows from random_state',
 'Every random decision taken while fitting (sub-sampling of series, shapelet lengths, dilations, normalisation flags, channels, positions, thresholds) is drawn from a generator derived from the user\'s random_state, so two estimators built with the same seed and fitted sequentially on the same data are identical, whatever the state of the global generators beforehand; transforming draws nothing. Ensemble members get their seeds in a fixed order, whatever order they are fitted in.',
 ['histories','schedules','configurations'],'all seeds, global generator states, configurations (including n_samples) and member scheduling orders',
 'A test compares two runs; it does not show that no unseeded draw exists on some path.',
 [T+'rdst.py']+KALL+['convst/classifiers/rdst_ensemble.py'],[('seed(r_seed) before any draw','*_generate_shapelet'),('_check_params draws the seed, resample gets random_state',T+'rdst.py'),('per-member seeds','convst/classifiers/rdst_ensemble.py')],(),['R_DST.fit','R_DST_Ensemble.fit'])
p('C17','Fitting and transforming leave inputs and configuration alone',
 'Fitting and transforming never modify the caller\'s series or labels, transforming never modifies the fitted state, and fitting does not change the length, channel and minimum-length options given by the user, so a second fit on other data uses the options as given and equals a fit of a fresh estimator.',
 ['inputs','histories'],'all inputs and all sequences of fit/transform calls',
 'It speaks about whole call histories and about every element of every argument.',
 [T+'rdst.py']+KALL,[('copies made by astype / zeros before in-place normalisation','R_DST.fit, R_DST.transform, *_apply_all_shapelets')],(),['R_DST.fit','R_DST.transform'])
p('C18','Interpretation agrees with the transformer',
 'The distance vector plotted for a shapelet is the one the transform uses, the highlighted match starts at the position the transform reports and visits index+j*dilation (wrapped when phase invariance is on), and the per-class importance vector assigns each classifier coefficient to the feature column it was learned on (0 for dropped columns, opposite signs for the two classes of a binary problem). Multivariate transformers are refused with NotImplementedError.',
 ['inputs','configurations'],'all fitted univariate models, shapelets and series',
 'Plotting code is not tested at all.',
 ['convst/interpreters/rdst_interpreter.py'],[('Shapelet.plot_on_X, plot_distance_vector, _get_params, _get_shp_importance','convst/interpreters/rdst_interpreter.py')],(),['RDST_interpreter.plot_on_X','RDST_interpreter.plot_distance_vector','RDST_Ridge_interpreter'])
p('C19','The transformer variant matches the data and gets the right options',
 'Fitting selects the univariate or multivariate, equal or variable length implementation that matches the data (or the one the user forced), transform uses the counterpart of the implementation used by fit, and each user option (number of shapelets, lengths, normalisation probability, percentiles, alpha, phase, maximum channels, minimum length, prime scheme, sub-sampled data with matching labels and lengths) reaches the implementation under its own role.',
 ['inputs','configurations'],'all input container kinds, ranks, channel counts and option combinations',
 'Long positional argument lists differ between variants; a swapped pair of same-typed options passes the tests.',
 [T+'rdst.py','convst/classifiers/rdst_ridge.py','convst/classifiers/rdst_ensemble.py'],[('fit dispatch, _auto_class, _set_fit_transform, _format_uneven_timestamps',T+'rdst.py'),('_init_components','convst/classifiers/rdst_ridge.py')],(),['R_DST.fit','R_DST.transform','R_DST_Ridge.fit','R_DST_Ensemble.fit'])
p('C20','Compiled replacements of numpy helpers match numpy',
 'The row/column uniqueness helper returns, for every non-empty 2D array, the distinct rows (or columns) in lexicographic order, the index of the first occurrence of each and their multiplicities, and the compiled all-reduction equals the logical and over the requested axis.',
 ['inputs'],'all 2D arrays, both axes',
 'No test calls them.',
 ['convst/utils/numba_utils.py'],[('nb_unique, np_all','convst/utils/numba_utils.py')],(),['nb_unique','np_all'])
p('C21','Distance and subsequence helpers agree with each other',
 'The distance helpers are the euclidean, squared euclidean and manhattan distances; a subsequence extracted at position i with length l and dilation d equals row i of the stride matrix with the same parameters (per channel for 2D strides, circular for phase invariance, z-normalised when requested), and the distance between a series and its own subsequence is zero at the position it was taken from.',
 ['inputs'],'all series, positions, lengths, dilations, both phase modes, normalised or not',
 'The helper tests compare fixed small arrays and need numba.',
 [T+'_commons.py'],[('euclidean, squared_euclidean, manhattan, generate_strides_*, get_subsequence',T+'_commons.py')],(),['get_subsequence','generate_strides_1D','generate_strides_2D','compute_shapelet_dist_vector'])
p('C22','Input transformations act per series and channel',
 'The raw transformation returns its input, the derivative transformation applies the difference x[t+1]-x[t] along time as many times as its order, and the periodogram transformation replaces each channel of each series by its own periodogram under the configured window; none mixes samples or channels, and sample and channel order are kept.',
 ['inputs','configurations'],'all datasets, orders and windows',
 'No test runs the input transformers.',
 [T+'_input_transformers.py'],[('Raw, Derivate, Periodigram',T+'_input_transformers.py')],(),['Raw.transform','Derivate.transform','Periodigram.transform'])
p('C23','Model comparison counts and significance follow their definitions',
 'The win/draw/loss counts shown for a pair of models count, over all datasets and up to the margin, each dataset once; the significance flags follow Holm\'s step-down rule over the pairwise tests, and the cliques group exactly the pairs not found different.',
 ['inputs'],'all score tables, margins and significance levels',
 'No test runs the comparison utilities.',
 ['convst/utils/plot_utils.py'],[('pairwise_plot, _wilcoxon_holm, _form_cliques','convst/utils/plot_utils.py')],(),['pairwise_plot','draw_cd_diagram'])
p('C24','Threaded fitting is reproducible across thread counts',
 'With a fixed seed, fitting with any number of threads samples the same shapelets.',
 ['schedules'],'all thread counts and schedules of the compiled sampler',
 'It depends on the per-thread generator of the numba runtime, which no test controls.',
 [T+'_univariate_same_length.py'],[('seed(r_seed) seeds only the calling thread of the numba runtime','*_generate_shapelet')],(),['R_DST.fit'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P: assert len(d['title'])<=80,(d['id'],len(d['title']))
print(len(P))
