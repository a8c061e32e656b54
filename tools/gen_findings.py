"""Writes KNOWN_FINDINGS.txt. Never called by a check."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
 ("C07", "empty-serialised-state", "get_serialised_state() returns b'' for every object (the buffer is read from its end); the stored regression references were made with it"),
 ("C26", "randn-uniform", "factory.randn(rows, columns, seed, mean, std) returns the uniform numbers of rand() and ignores mean and std; DIPLS/FastICA references depend on the values"),
 ("C26", "quantile-unseeded", "QuantileTransformer without a seed (random_state None, the default) and with more rows than subsample draws its subsample from the process-wide generator, so it changes that generator's state and its result depends on it"),
 ("C23", "rbf-unsquared", "RBFKernel evaluates exp(-gamma*||x-y||) instead of exp(-gamma*||x-y||^2); the stored references were made with it"),
 ("C27", "prm-one-iteration", "PRM stops after its first reweighting pass (the convergence test is inverted); the stored references were made with it"),
 ("C27", "sparsepls-norm", "SparsePLS divides its direction vectors by their squared norm instead of their norm, so they have no unit length; the stored references were made with it"),
 ("C11", "sparsepls-batch", "SparsePLS.transform deflates new rows with loadings computed from the batch itself, so all components after the first depend on the other rows passed along; the stored references were made with it"),
 ("C12", "kernelpls-centering", "KernelPLS centres the test kernel with the already centred training kernel, which biases predictions on new data for non-linear kernels"),
 ("C12", "simpls-slim", "SIMPLS keeps num_coefficients+1 instead of num_coefficients coefficients per response when slimming"),
 ("C09", "dipls-centres", "DIPLS trained a second time keeps the source/target centres of its first training (so another number of columns is rejected); the stored references were made on a shared object"),
 ("C16", "glsw-pairing", "GLSW (and its Y-gradient variant) pairs eigenvectors in the order of the eigen solver with weights in descending order of eigenvalue; the stored references were made with it"),
 ("C15", "ica-parallel-transposed", "FastICA's parallel algorithm applies the transposed unmixing matrix to the data in every iteration, so it does not find the independent sources; the stored reference of test parallel was made with it"),
 ("C16", "epo-keeps-span", "EPO and YGradientEPO project onto the N leading difference directions (G = V*V') instead of removing them (G = I - V*V'); the stored references were made with it"),
 ("C16", "ygradient-sign", "the gradient filter of YGradientGLSW/YGradientEPO computes the negative gradient, so rows where the response changes most are weighted up instead of down; the stored references were made with it"),
 ("C12", "opls-simultaneous", "OPLS.transform removes all orthogonal components at once (X - X*W*P') instead of one after the other, so with two or more components it does not reproduce the filtered training data; the stored references were made with it"),
 ("C24", "fft-row-rotation", "FFT.transform shifts along both axes, so the rows of the result are rotated by half their number (the inverse undoes it); the stored references were made with it"),
]
FIXED = """C05 6dc2692 linear_regression returned arbitrary or infinite slopes for values far from zero (cancelling sums)
C05 0970e5d sort exceeded the recursion limit on lists unfavourable for median-of-three pivots (from about 2000 elements)
C21 d1aeb52 Savitzky-Golay coefficients were garbage for high orders on wide windows (integer overflow in the normal equations)
C05 3cb592b quick_sort left lists of Python floats or integers unsorted (only numpy reals were partitioned around the pivot)
C12 1156fc2 NIPALS and CCARegression failed to train (NaN) when the first response is constant
C04 486a9ca eigenvectors of symmetric matrices with repeated eigenvalues were not orthogonal (GLSW, EPO and CCAFilter were wrong whenever the data have fewer rows than columns)
C04 b3334f2 eigenvalues and eigenvectors of real symmetric matrices came back as complex numbers (so algorithms built on them returned complex matrices)
C04 8cb3e85 in-place by-vector operations kept stale decompositions
C04 f6796ea filling the diagonal kept stale decompositions
C04 655eb06 get_singular_values on a matrix not decomposed before raised
C03 6fcb041 get_eigenvalue_decomposition_V returned the cache itself
C01 5709c00 contains_NaN never found a NaN
C02 7ec9799 == raised for different shapes and rejected equal infinities
C05 70e3353 max_index always returned 1
C05 3b4f6e4 sort of a list of plain ints gave unsorted positions
C06 4056f2b NaN was not written with its name
C05 cc867da sort did not treat NaN as the largest value
C18 2a7188f Standardize divided by zero for constant columns other than the first
C07 16df07a serialise_big_int overflowed when the value needed the sign bit
C07 f5ef307 save_state failed for a file name without a directory
C07 0f803e0 Log with an integer base serialised in another format
C06 62ecda5 reading an empty stream raised an unrelated TypeError
C09 7297c35 CCAFilter kept the means of its first training set
C09 34f548c FastICA kept means and sources of an earlier data set
C08 59905c7 SIMPLS kept Q after a reset
C08 01ea246 OPLS kept its filtered training data after a reset
C08 a091a46 NIPALS stayed trained after norm_Y_weights/deflation_mode changes
C20 7ef7e2e PowerTransformer.standardise changes were ignored once configured
C20 080756f QuantileTransformer setting changes were ignored once configured
C20 0444cf0 RobustScaler setting changes were ignored once configured
C08 89c3f52 FastICA stayed trained after function/algorithm changes
C08 1d23520 DIPLS stayed trained after a strategy change
C13 0503277 multi-response predictions used the mean/stdev of the first response for all
C13 a4aae87 predictions and transforms ignored the predictor preprocessing
C08 06840ee OPLS reported success although its base PLS could not be trained
C16 5986317 EPO failed when N exceeded the number of columns
C16 29fb329 YGradientEPO failed when N exceeded the number of columns
C26 b44e811 creating a random matrix reseeded the process-wide generator
C17 99010d2 CCAFilter used the right singular vectors transposed
C27 fa95af2 PRM used the right singular vectors transposed for wide data
C27 eac43b7 PRM could not transform data with more columns than rows
C12 f9dee15 the NIPALS loop never updated its Y scores
C27 b688869 semi-supervised DIPLS assumed equally many source and target rows
C15 cb3ff1d FastICA.reconstruct added the means along the wrong axis
C14 e1fcbf8 PCA loadings lost columns when constant columns were removed
C20 90f654f RowNorm used the statistics of inverse-transformed data afterwards
C09 6d0a139 DIPLS.initialize reused the domain sizes of an earlier training
C06 7ea6729 writing in scientific notation at full precision raised
C18 edc13ee Standardize divided constant columns by the rounding error of their deviation
C18 3b75e61 RowNorm divided constant rows by the rounding error of their deviation
C21 1dfccb1 Savitzky-Golay windows with too few points returned rounding noise
C20 cbe726b a failed configure() left RobustScaler/PowerTransformer/QuantileTransformer configured but unusable
C12 fcd4bbd NIPALS and CCARegression could not be trained with more than one response
C10 f47e952 FastICA.transform returned its internal sources, so changing the result changed later reconstructions
C10 4e14074 PCA.transform returned the very matrix it keeps as its scores
C12 aa50d89 CCARegression raised or returned garbage when predictors or responses are square
C12 9f4188e CCARegression inverted rounding noise of deflated matrices (predictions of 1e27)
C09 fce4d60 kernels froze their default gamma at the width of the first data""".splitlines()
if __name__ == "__main__":
    with open(os.path.join(V, "KNOWN_FINDINGS.txt"), "w") as f:
        for p, k, t in KNOWN:
            f.write("KNOWN-FINDING: property=%s id=%s %s\n" % (p, k, t))
        for line in FIXED:
            p, rest = line.split(" ", 1)
            f.write("fixed: property=%s %s\n" % (p, rest))
