#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
D, I, N, E, H, HO, IN, P, R, DI, U, A, M = [
    "dcor/_dcor.py", "dcor/_dcor_internals.py", "dcor/_dcor_internals_numba.py", "dcor/_energy.py",
    "dcor/_hypothesis.py", "dcor/homogeneity.py", "dcor/independence.py", "dcor/_partial_dcor.py",
    "dcor/_rowwise.py", "dcor/distances.py", "dcor/_utils.py", "dcor/_fast_dcov_avl.py",
    "dcor/_fast_dcov_mergesort.py"]
props = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

prop("C01", "Naive squared distance covariance is the published estimator",
 "For every pair of samples with the same number n of observations, every exponent and every input form (vector, column or matrix), the naive method returns, in exact arithmetic, the documented estimator: for the biased version the mean over all (i,j) of the product of the two double-centred distance matrices, for the unbiased version their U-centred inner product 1/(n(n-3)). Nothing else about the data (size, sign, ties, dtype, memory layout) selects a different formula.",
 ["inputs"], "all samples, sizes, dimensions, exponents, biased and unbiased",
 "The tests compare a handful of fixed 3x3..6x1 samples and the doctests one 4x4 matrix; a formula that is wrong only for some n, dimension or exponent is not sampled.",
 [I, D, DI, U], [("terms without centering", f"{I}:_dcov_terms_naive, _dcov_from_terms"), ("distance matrices", f"{DI}:pairwise_distances")])
prop("C02", "Fast algorithms compute the same statistic as the definition",
 "For univariate samples of more than three observations the AVL and MERGESORT methods return, in exact arithmetic, the same covariances, variances and correlations as the naive definition, compiled or not, for every n, with or without ties, and however the data are ordered.",
 ["inputs", "configurations"], "all univariate samples with n > 3, both fast methods, compiled and uncompiled, biased and unbiased",
 "The tests compare the methods on 35 tie-free random samples with 4 <= n <= 10 in AUTO mode only.",
 [A, M, N, D, I], [("row sums, totals and variance terms", f"{A}:_get_impl_args, _distance_covariance_sqr_terms_avl_impl; {M}:_compute_row_sums"), ("dominance sums", f"{A}:_dyad_update, _dyad_update_compiled_version; {M}:_compute_weight_sums")])
prop("C03", "Correlation is covariance over root variance product, 0 when degenerate",
 "For every method, biased or unbiased, the squared distance correlation equals the squared covariance divided by the square root of the absolute product of the two squared variances, and is exactly 0 if and only by the rule that this product is exactly zero (no tolerance); no division by zero happens. Non-squared statistics are square roots in which a negative squared value counts as 0 instead of producing NaN.",
 ["inputs", "configurations"], "all samples including constant ones, all methods, biased and unbiased",
 "The tests try one all-ones vector and a few well-conditioned samples; tiny variances and one-sided degeneracy are not sampled.",
 [D, U], [("normalisation and zero guard", f"{D}:_DcovAlgorithmInternals.stats_sqr"), ("clamped square root", f"{U}:_sqrt")])
prop("C04", "All ways of asking for the same statistic give the same answer",
 "With equal arguments, the fields of the stats objects (covariance, correlation, first and second variance, in that order) equal what the individual covariance and correlation functions return (a variance being the covariance of a sample with itself), and every non-squared function is the square root of its squared counterpart, for every method, exponent and input form.",
 ["inputs", "configurations"], "all arguments of the covariance, correlation and stats families",
 "Doctests print three examples per function with the default method; crossings of method x exponent x function are not compared.",
 [D], [("shared stats computation", f"{D}:_DcovAlgorithmInternals, distance_stats, distance_covariance, distance_correlation")])
prop("C05", "Matrix centering follows its formula and is safe in place",
 "Double-centering and U-centering a symmetric square matrix return the documented element-wise formulas (U-centering with an exactly zero diagonal) for every size. When an output array is given the result is written to and returned in that array and is the same as without it, even if it is the input itself; without an output array the input is left untouched and the result is floating point even for integer input.",
 ["inputs", "configurations"], "all symmetric matrices and sizes; no output, separate output, output aliasing the input",
 "Tests check row sums for ten random matrices and two tiny aliasing doctests; no separate output array is ever passed.",
 [I], [("centering functions", f"{I}:double_centered, u_centered, _float_copy_to_out, _symmetric_matrix_sums")])
prop("C06", "Projections are orthogonal in the U-centred inner product space",
 "The U-product of two matrices is the sum of their element-wise products over n(n-3), and the plain product is the mean of the element-wise products. Projecting B on A gives <A,B>/<A,A> A, or an all-zero matrix when <A,A> is zero; the complementary projection is B minus that, hence orthogonal to A whenever <A,A> is not zero, and leaves B unchanged when it is.",
 ["inputs"], "all matrices A, B of equal shape, zero and non-zero <A,A>",
 "Doctests show one 4x4 pair and the zero matrix.",
 [I], [("products and projections", f"{I}:mean_product, u_product, u_projection, u_complementary_projection")])
prop("C07", "Partial distance covariance and correlation follow their definition",
 "The partial distance covariance of x and y given z is the U-product of the projections of their U-centred distance matrices orthogonal to that of z. The partial correlation is (r_xy - r_xz r_yz)/sqrt((1-r_xz^2)(1-r_yz^2)) of the bias-corrected correlations clipped to [-1,1], each taken as 0 when its denominator is exactly zero, and the result is 0 when its own denominator is exactly zero.",
 ["inputs"], "all triples of samples of equal size",
 "Three doctest examples per function; degenerate z, r_xz = +-1 and general dimensions are not sampled.",
 [P, I], [("projection based covariance", f"{P}:partial_distance_covariance"), ("guarded correlation", f"{P}:partial_distance_correlation")])
prop("C08", "Energy distance is its documented estimator for every option",
 "The energy distance is 2*avg(d(x,y)) - avg(d(x,x)) - avg(d(y,y)) over Euclidean distances raised to the exponent, where avg is the mean or the caller's function; the V-statistic averages full within-sample matrices, the U-statistic only pairs of distinct points. Enum members, and their names or first letters in either case, select the same statistic, and unknown names are rejected.",
 ["inputs", "configurations"], "all samples, sizes, exponents, averaging functions and ways to name the statistic",
 "Tests use one 3x3 distance matrix for the U-statistic and two doctest samples; U combined with exponent, sizes or custom averages is untested.",
 [E, DI], [("estimator", f"{E}:_energy_distance_from_distance_matrices, _get_flat_upper_matrix, EstimationStatistic.from_string")])
prop("C09", "Homogeneity statistic sums weighted energy distances over all pairs",
 "For any number k >= 2 of samples of any sizes, the energy test statistic is the sum over each unordered pair of samples, counted once, of n*m/(n+m) times their energy distance with the same exponent, average and estimation statistic. For two samples it equals the stand-alone energy test statistic.",
 ["inputs", "configurations"], "all numbers and sizes of samples and all options",
 "No test passes three or more samples to the test, nor the U-statistic or an exponent together with unequal sizes.",
 [HO, E], [("pairwise sum", f"{HO}:_energy_test_statistic_multivariate_from_distance_matrix"), ("coefficient", f"{HO}:_energy_test_statistic_coefficient")])
prop("C10", "Permutation p-values are valid for every resample count",
 "The p-value of every permutation test is (1 + number of resamples whose statistic strictly exceeds the observed one)/(1 + number of resamples), hence never 0, and 1 without resamples; the reported statistic is the one of the original data. Each resample uses one fresh uniform permutation of all observations, applied identically to rows and columns of one distance matrix and, in independence tests, to only one of the samples.",
 ["inputs", "histories"], "all data, statistics, resample counts and permutations",
 "Tests check p-value thresholds on a few seeds; joint row/column permutation and counting are only visible statistically.",
 [H, HO, IN], [("permutation engine", f"{H}:_permutation_test_with_sym_matrix, _permuted_statistic"), ("statistics", f"{IN}:distance_covariance_test, partial_distance_covariance_test; {HO}:energy_test")])
prop("C11", "Random results depend only on the given random state",
 "Every random number used by a test comes from the random state argument: a generator object is used as it is, an integer or None seeds a new private one, and the library never draws from, seeds or otherwise uses any other random source. All draws are made by the caller's process in resample order, so the same seed gives the same result for any number of parallel jobs.",
 ["schedules", "histories", "configurations"], "all random states, numbers of jobs and schedules of the workers",
 "No test compares different numbers of jobs or checks the state of the global generator.",
 [H, U, IN, HO], [("generator normalisation", f"{U}:_random_state_init"), ("draws before dispatch", f"{H}:_permutation_test_with_sym_matrix")])
prop("C12", "The t-test of independence follows its definition",
 "With R the bias-corrected squared distance correlation and v = n(n-3)/2, the t statistic is sqrt(v-1) R / sqrt(1-R^2), with 1-R^2 never taken below zero, and the p-value is the upper tail probability of that statistic under Student's t with v-1 degrees of freedom.",
 ["inputs"], "all pairs of samples",
 "Three doctest examples with n = 4.",
 [IN], [("statistic and tail", f"{IN}:distance_correlation_t_statistic, distance_correlation_t_test")])
prop("C13", "Pairwise distances have the documented entries and orientation",
 "For two samples the (i,j) entry of the pairwise distance matrix is the Euclidean distance between x[i] and y[j] raised to the exponent, and the shape is (rows of x, rows of y), for every dtype, array library, exponent and implementation chosen internally. With one sample, or the same object twice, it is the matrix of distances within it.",
 ["inputs", "configurations"], "all samples, exponents, dtypes and array namespaces",
 "The only two-sample example is a doctest whose result happens to be a symmetric matrix.",
 [DI, U], [("implementations", f"{DI}:_cdist_naive, _cdist_scipy, _pdist_scipy"), ("dispatch", f"{DI}:pairwise_distances, {U}:_can_be_numpy_double")])
prop("C14", "The caller's data are never modified",
 "No public function writes into an array or sequence passed by the caller, on any path, except that the centering functions write into an explicitly given output array.",
 ["inputs", "configurations"], "all public functions, all options, all aliasing between arguments and temporaries",
 "No test looks at the inputs after a call.",
 [D, I, A, M, E, H, HO, IN, P, R, DI, U], [("copies before in-place work", f"{U}:_sqrt; {I}:_float_copy_to_out, _distance_matrix_generic; {DI}:_pdist_scipy")])
prop("C15", "Results do not depend on earlier calls or uninitialised memory",
 "A public function keeps no state between calls: it writes no module, class, function or default-argument object, no cache and no shared buffer, and every buffer allocated without initialisation is completely written before it is read. Hence the same arguments give the same result whatever was computed before or runs concurrently in another thread.",
 ["histories", "schedules"], "all sequences and interleavings of calls",
 "Tests call each function a few times in a fixed order in one thread.",
 [D, I, N, A, M, E, H, HO, IN, P, R, DI, U], [("scratch reset", f"{A}:_dyad_update, _dyad_update_compiled_version"), ("per-call buffers", f"{A}:_get_impl_args; {M}:_compute_weight_sums")])
prop("C16", "The exponent is honoured everywhere or refused",
 "Every function taking an exponent uses it for all distances that enter its result; a method that only supports exponent 1 raises an error for any other value, and the automatic choice never picks such a method then. The covariance, correlation, energy and testing functions issue a warning exactly when the exponent lies outside the open interval (0, 2), never otherwise.",
 ["inputs", "configurations"], "all exponents, methods, input forms and functions with an exponent",
 "Exponents other than 1 are exercised by one doctest value per function with the default method.",
 [D, I, E, HO, IN, A, M, R, DI], [("validity warnings", f"{I}:_check_valid_dcov_exponent; {E}:_check_valid_energy_exponent"), ("exponent-1 guards", f"{A}:_distance_covariance_sqr_terms_avl; {M}:_distance_covariance_sqr_terms_mergesort; {D}:_can_use_fast_algorithm")])
prop("C17", "Method and compile mode requests are obeyed or refused",
 "Methods can be named by enum member or by its name in any case, and unknown names are refused. A requested method is the one that runs; the automatic method uses a fast algorithm only for univariate NumPy data with more than three observations and exponent 1, otherwise the naive one. Without compilation no compiled kernel runs, an explicit compiled mode never falls back silently, and unsupported modes raise an error.",
 ["configurations", "inputs"], "all methods x compile modes x input forms",
 "Tests compare values, which agree whichever implementation ran.",
 [D, I, A, M, N, R], [("dispatch tables", f"{A}:impls_dict, rowwise_impls_dict; {M}:impls_dict"), ("method choice", f"{D}:_dcov_terms_auto, _can_use_fast_algorithm, _to_algorithm")])
prop("C18", "Row-wise evaluation equals evaluating each pair separately",
 "For every supported function and options, entry i of a row-wise computation is the value of the function on the i-th elements of both collections, whichever row-wise mode or compile mode is used. The naive mode never uses an optimised implementation, the optimised mode fails when there is none, and the automatic mode falls back to the naive one.",
 ["inputs", "configurations"], "all collections, functions, row-wise and compile modes",
 "Tests use one set of four well-conditioned 6x1 samples; degenerate samples, integer data and options are not compared.",
 [R, A, D], [("optimised row-wise functions", f"{R}:rowwise, _generate_rowwise_distance_covariance_sqr, _generate_rowwise_distance_correlation_sqr")])
prop("C19", "Results stay in the caller's array library",
 "Given arrays of one Array API library other than NumPy, the distance, covariance, correlation, partial, centering, energy and testing functions compute statistics with that library and return them as its arrays, without passing its arrays to NumPy or SciPy routines; only p-values are plain floats.",
 ["inputs", "configurations"], "all public statistics with non-NumPy Array API inputs, all options that apply",
 "Array API tests cover the covariance and correlation family and the mean based V-statistic tests only, with default options.",
 [U, D, I, E, H, HO, IN, P, DI], [("namespace lookup", f"{U}:array_namespace")])
prop("C20", "Incompatible samples are rejected instead of giving a number",
 "Statistics of paired samples (covariance, correlation, stats, partial statistics, independence tests, with every method) raise an error when the samples have different numbers of observations, and distance and energy functions raise an error when the samples have different numbers of components; broadcasting, truncation or reading out of bounds never turns such a mistake into a value.",
 ["inputs", "configurations"], "all mismatching shapes including size 1, all methods",
 "No test passes mismatching samples.",
 [D, I, A, M, IN, P, E, DI, HO], [("size checks", f"{I}:_check_same_n_elements; {A}:_get_impl_args")])
prop("C21", "Integer data give the same result as the equal floating-point data",
 "For samples of any fixed-width integer type, signed or unsigned, distances, covariances and correlations are computed after conversion to floating point, so no subtraction, product, square or sum of the data can wrap around, with every method and compile mode.",
 ["inputs", "configurations"], "all integer dtypes and magnitudes, all methods",
 "One 64-bit integer test with small values exists; narrow, unsigned or large integers are not tested.",
 [DI, U, A, M], [("conversion to double", f"{U}:_can_be_numpy_double; {DI}:_pdist, _cdist")])
prop("C22", "Fast methods and the automatic choice never build quadratic arrays",
 "On univariate NumPy samples of more than three observations with exponent 1, the AVL, MERGESORT and automatic methods allocate no array whose size grows faster than n log n; in particular no pairwise distance matrix is formed.",
 ["inputs", "configurations"], "all n, both fast methods and the automatic one, compiled and uncompiled, biased and unbiased",
 "Tests compare values on small samples; memory growth is not observed.",
 [A, M, D], [("vectorised without n^2 temporaries", f"{A}:_dyad_update, _get_impl_args; {M}:_compute_weight_sums")])
prop("C23", "Vectors and one-column matrices are treated alike",
 "For every public statistic a sample given as a vector of length n and the same sample given as an n by 1 matrix produce the same value, in every argument position and for every method.",
 ["inputs", "configurations"], "all public statistics, argument positions and methods",
 "Most tests pass only one of the two forms.",
 [U, D, I, E, HO, IN, P, DI], [("shape normalisation", f"{U}:_transform_to_1d, _transform_to_2d")])
prop("C24", "Symmetric statistics do not depend on the order of the samples",
 "Distance covariance, distance correlation (with every method), energy distance and partial statistics give, in exact arithmetic, the same value when x and y are exchanged, with the two variances exchanged in stats objects; the k-sample homogeneity statistic does not depend on the order of the samples.",
 ["inputs", "configurations"], "all samples and options",
 "No test exchanges arguments.",
 [D, I, E, HO, P], [("symmetric formulas", f"{I}:_dcov_from_terms; {E}:_energy_distance_from_distance_matrices")])
prop("C25", "Affinely invariant distance correlation",
 "Whenever the sample covariance matrices of x and y are invertible, distance_correlation_af_inv_sqr (and its square root distance_correlation_af_inv) equal, in exact arithmetic, the (squared) distance correlation of the samples standardised by the inverse square root of their own covariance matrices - so distances between observations are Mahalanobis distances and the value is unchanged by invertible affine maps of either sample. The method and compile_mode arguments are obeyed as in distance_correlation_sqr: the requested algorithm runs, NO_COMPILE runs no compiled kernel, unsupported combinations and unknown names are refused.",
 ["inputs", "configurations"], "all samples with invertible covariance, methods, compile modes, dtypes, array libraries",
 "Tests evaluate a few small samples with default arguments.",
 [D, I], [("standardisation", f"{I}:_af_inv_scaled, _mat_sqrt_inv, _cov"), ("entry", f"{D}:distance_correlation_af_inv_sqr, distance_correlation_af_inv")])
prop("C26", "Samples of exact numbers keep their precision",
 "NumPy object arrays of fractions.Fraction or decimal.Decimal values are accepted by pairwise_distances (default exponent), double_centered, u_centered, the distance covariance, correlation and stats functions (default, NAIVE and AVL methods), the partial distance statistics and energy_distance, and give the value of the definition. Decimal samples are never converted to binary floating point and give Decimal results; Fraction samples are not converted where the result is rational (centring, squared distance covariance of univariate samples by the default or AVL method).",
 ["inputs", "configurations"], "all samples of exact numbers, methods and forms",
 "Tests use Fraction and Decimal vectors with two functions and compare to a few digits.",
 [U, D, I, DI, E, P, A], [("distances of exact numbers", f"{DI}:_cdist_naive"), ("roots", f"{U}:_sqrt"), ("buffers", f"{A}:_get_impl_args")])
# not applicable
prop("C30", "Rounding errors stay small",
 "The floating-point results of all methods differ from the exact value of the estimator by a small multiple of the machine precision relative to the size of the data, for every sample size.",
 ["inputs"], "all floating-point samples", "Tests compare to 5-7 decimals on small samples.",
 [D, I, A, M], [("summation order and formulas", f"{A}, {M}, {I}")])
prop("C31", "Tests keep their nominal significance level",
 "Under the null hypothesis every test rejects at level alpha with probability at most alpha, and rejects with probability tending to one under fixed alternatives.",
 ["inputs", "histories"], "all distributions and sample sizes", "Tests check one sample per scenario.",
 [H, HO, IN], [("permutation engine", H)])
prop("C32", "Fast methods run in O(n log n) time",
 "The AVL and MERGESORT methods finish in time growing as n log n, compiled or not.",
 ["inputs"], "all n", "Tests never measure time.",
 [A, M], [("kernels", f"{A}:_dyad_update_compiled_version; {M}:_compute_weight_sums")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
print(len(props))
