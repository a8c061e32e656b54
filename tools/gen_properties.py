"""Writes /verif/properties.jsonl (kept as a generator so that the statements stay readable)."""
import json
import os

B = "src/wai/ma/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    anchors = {"files": [B + f for f in files],
               "mechanism": [{"name": n, "where": B + w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": x, "meaning": x, "where": B + mech[0][1]} for x in state]
    if observe:
        anchors["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})


MX, FA, HE = "core/matrix/_Matrix.py", "core/matrix/factory.py", "core/matrix/helper.py"
PLS = "algorithm/pls/"

prop("C01", "Matrix arithmetic and reductions compute the mathematical result",
     "For all matrices and scalars, the matrix sum, difference, product, quotient, elementwise and by-vector operations, powers, "
     "square roots, exponentials, clipping, signs, normalisation, norms, sums, means, medians, traces, the means and standard deviations of rows and columns, and element searches return "
     "the mathematically defined values in a result of the mathematically defined shape. Operands of incompatible shape and "
     "meaningless arguments are rejected with an error instead of producing a result.",
     ["inputs"], "all operand shapes, vector orientations and values",
     "the tests run each operation on one or two fixed operands; shape, orientation and special-value combinations are quadratic in number",
     [MX, HE], [("binary operations", MX + ":mul/add/sub/div_elementwise"), ("by-vector operations", MX + ":vector_op"),
                ("reductions", MX + ":sum/mean/norm1/norm2"), ("row/column statistics", HE + ":row_means/column_stdevs")])

prop("C02", "Matrices are built, sliced, concatenated and updated cell-exactly",
     "Constructing a matrix, extracting rows, columns or sub-matrices, transposing, concatenating, deleting columns and every in-place "
     "update touch exactly the cells they name and leave every other cell, and the shape, as they were. After any history of updates "
     "each cell holds the value last written to it, and two matrices compare equal exactly when they have the same shape and the same values.",
     ["inputs", "histories"], "all shapes, index selections and histories of in-place updates",
     "tests cover a single selection per method and no update history longer than one step",
     [MX, FA, HE], [("extraction", MX + ":get_sub_matrix/get_row/get_column/head/diag"), ("update", MX + ":set/set_row/set_column"),
                    ("construction", FA + ":create/eye/zeros/filled/range/diag"), ("concatenation", MX + ":concat")])

prop("C03", "Matrix operations never modify operands nor share storage with them",
     "An operation that returns a matrix leaves all of its operands unchanged, and neither later changes to the result nor later changes "
     "to an operand are ever visible through the other. Only the operations documented as modifying in place change a matrix, and they "
     "change only the matrix they are called on; results always reflect the current contents of the operands.",
     ["histories", "inputs"], "all sequences of producing operations followed by in-place changes of any matrix involved",
     "sharing shows only when a specific producer is followed by an in-place change of one side; tests compare returned values only",
     [MX, FA, HE], [("copying producers", MX + ":copy/transpose/get_row/get_column/get_sub_matrix/get_eigenvalues"),
                    ("in-place operations", MX + ":vector_op_modify/set/set_row/set_column"), ("factories", FA + ":create")],
     state=["the storage of every live matrix"])

prop("C04", "Decompositions, inverses and solves always describe the current contents",
     "At every point of any history of reads, decompositions and in-place changes, the eigenvalues and eigenvectors, singular value "
     "decomposition, inverse, pseudo-inverse and linear solve returned for a matrix satisfy their defining equations for the matrix's current "
     "contents. Sorted eigenvalues and eigenvectors are returned in the requested order and pairing.",
     ["histories", "inputs"], "all interleavings of decomposition queries with in-place changes; all small matrices",
     "caches make the answer depend on the order of earlier calls; tests decompose a fresh matrix once",
     [MX, HE], [("decomposition cache", MX + ":make_eigenvalue_decomposition/make_singular_value_decomposition"),
                ("cache invalidation", MX + ":reset_cache"), ("solve", HE + ":solve"), ("inverse", MX + ":inverse/pseudo_inverse")],
     state=["cached eigenvalue and singular value decompositions"])

prop("C05", "Sorting, regression and other numeric utilities are exact for every list",
     "Sorting any list of numbers, including ties and NaN (treated as the largest value), terminates and yields a permutation of "
     "all positions that reads the values in ascending order, without changing the list. Simple regression returns the least-squares "
     "intercept and slope, the maximum position is the first position of the maximum, and the remaining list utilities return their defined values.",
     ["inputs"], "all lists up to a length over small value sets, all permutations, structured long lists and all number types",
     "a quicksort over an index array has order-dependent partition paths; the tests exercise none of them",
     ["core/utils.py"], [("index quicksort", "core/utils.py:sort/quick_sort/partition"), ("regression", "core/utils.py:linear_regression"),
                         ("maximum", "core/utils.py:max_index")])

prop("C06", "A matrix written as text reads back as the same matrix",
     "For every matrix, separator, header setting and number format, writing to a file or stream and reading it back with the same settings gives a matrix of "
     "the same shape whose values equal the written ones to the requested precision (exactly at full precision), including zeros, huge, tiny, negative, "
     "infinite and NaN values. Each value lands in its own row and column; unreadable cells are reported and read as zero without disturbing any other cell.",
     ["inputs", "configurations"], "all shapes, values, separators, header, precision and notation settings, files and streams",
     "the tests only read; no test writes a matrix",
     [HE, "core/utils.py"], [("writer", HE + ":to_lines/data_to_string/write"), ("reader", HE + ":read"),
                             ("number format", "core/utils.py:real_to_string_fixed")])

prop("C07", "Binary serialisation is lossless and decodable for every value",
     "Serialised integers, reals, strings, matrices and transformation states decode, with the documented layout, to exactly the value that was serialised, for "
     "values of any sign, size and encoding. Saving a state to any writable path creates the file with exactly those bytes, and the bytes depend only on the state, not on what was serialised before.",
     ["inputs", "histories"], "all boundary integers and reals, all short strings, all small matrices, all configured transformations",
     "tests compare no serialised bytes; sign, length and byte boundaries matter",
     ["core/_Serialisable.py", MX, "transformation/_Log.py", "transformation/_SavitzkyGolay.py", "transformation/_Standardize.py"],
     [("scalar encodings", "core/_Serialisable.py:serialise_to_bytes/serialise_big_int"), ("saving", "core/_Serialisable.py:save_state"),
      ("matrix encoding", MX + ":serialise_state")])

ALG = ["core/_LoggingObject.py", "algorithm/_AbstractAlgorithm.py", PLS + "_AbstractPLS.py", "algorithm/_PCA.py", "algorithm/_CCAFilter.py",
       "algorithm/glsw/_GLSW.py", "algorithm/ica/_FastICA.py", "meta/_JavaObjectMeta.py"]
prop("C08", "An algorithm is usable exactly while trained with its current parameters",
     "In every history of parameter changes, trainings, applications and resets, an algorithm gives results only while it has been successfully trained since its "
     "last accepted parameter change or reset, and otherwise reports that it is not ready. An invalid parameter value is rejected and "
     "changes nothing; a failed training does not leave the algorithm pretending to be trained; a reset discards everything learned.",
     ["histories", "configurations"], "all operation histories up to a depth, for every algorithm and every parameter with legal and illegal values",
     "tests train once and predict once; no test changes a parameter after training or follows a failed training",
     ALG + [PLS + f for f in ("_SIMPLS.py", "_NIPALS.py", "_OPLS.py", "_KernelPLS.py", "_PLS1.py", "_PRM.py", "_SparsePLS.py", "_DIPLS.py", "_VCPLS.py")],
     [("validated assignment", "core/_LoggingObject.py:__setattr__"), ("training state", PLS + "_AbstractPLS.py:initialize/predict"),
      ("reset", PLS + "_AbstractPLS.py:reset")], state=["initialised flags", "learned matrices"])

prop("C09", "A trained result depends only on the parameters and the last training data",
     "Training an algorithm or configuring a transformation or kernel gives the same results on a fresh object and on one that was trained, configured, applied, reset or had "
     "parameters changed and restored before, in any order. Objects of the same or different classes never influence each other.",
     ["histories"], "all histories over two data sets, other instances and parameter excursions before the final training",
     "leftovers of an earlier training show only in specific histories; tests use a fresh object per test",
     ALG + [PLS + "_DIPLS.py", PLS + "_OPLS.py", "transformation/kernel/_AbstractKernel.py"],
     [("initialisation of learned state", PLS + "_AbstractPLS.py:initialize"), ("reset", PLS + "_AbstractPLS.py:reset"),
      ("object construction", "meta/_JavaObjectMeta.py:__call__")], state=["learned matrices", "class attributes"])

prop("C10", "Training and applying leave the caller's data alone, and vice versa",
     "Training, predicting, transforming and inverse-transforming never modify the matrices the caller passes in. Changing those matrices, or a "
     "returned result, in place afterwards never changes what the trained object returns, nor any result returned earlier. (A pass-through and an empty chain return their argument itself; learned matrices handed out by accessors belong to the object.)",
     ["histories"], "all interleavings of training/applying with in-place changes of inputs and outputs, for every algorithm, transformation and filter",
     "aliasing is invisible until the caller mutates a matrix after the call; no test does",
     ALG + ["transformation/_AbstractTransformation.py", "core/_Filter.py"],
     [("training entry", PLS + "_AbstractPLS.py:initialize"), ("predictions", PLS + "_AbstractPLS.py:predict"),
      ("transformations", "transformation/_AbstractTransformation.py:transform")], state=["learned matrices", "caller-owned matrices"])

prop("C11", "A trained model treats every row on its own",
     "The prediction or transformation a trained model gives for a row does not depend on which other rows, how many, or in which order they are passed "
     "along, nor on what the model was applied to before. Passing single rows, subsets, duplicates or permutations of a data set returns the corresponding rows of the full result.",
     ["inputs", "histories"], "all non-empty subsets and all permutations of a small batch, all call sequences, for every model",
     "tests always apply a model to the full data set once",
     [PLS + "_AbstractPLS.py", PLS + "_KernelPLS.py", PLS + "_NIPALS.py", PLS + "_PRM.py", PLS + "_SparsePLS.py", "algorithm/_PCA.py", "algorithm/_CCAFilter.py",
      "algorithm/glsw/_GLSW.py", "transformation/_Standardize.py", "transformation/_MultiplicativeScatterCorrection.py"],
     [("prediction", PLS + "_AbstractPLS.py:predict"), ("transformation", "algorithm/_PCA.py:transform")])

prop("C12", "PLS models equal their textbook definitions on every data set",
     "For every regular data set and component count, PLS1, SIMPLS, NIPALS, CCA regression, kernel PLS and orthogonal PLS produce the scores, coefficients and "
     "predictions of the published algorithms: weights, scores and loadings satisfy the defining orthogonality and deflation relations and predictions are the corresponding least-squares fits. With as many "
     "components as the rank of the predictors, predictions equal the ordinary least-squares fit.",
     ["inputs", "configurations"], "all designs from a bounded set of shapes, ranks, scales, response counts, component counts and options",
     "the tests compare against stored outputs for one data set and a few settings",
     [PLS + f for f in ("_PLS1.py", "_SIMPLS.py", "_NIPALS.py", "_KernelPLS.py", "_OPLS.py", "_CCARegression.py", "_AbstractSingleResponsePLS.py", "_AbstractMultiResponsePLS.py")],
     [("component extraction", PLS + "_PLS1.py:do_perform_initialization"), ("NIPALS loop", PLS + "_NIPALS.py"), ("SIMPLS", PLS + "_SIMPLS.py"),
      ("kernel centring", PLS + "_KernelPLS.py"), ("orthogonal filter", PLS + "_OPLS.py")])

prop("C13", "PLS preprocessing is applied consistently in training and prediction",
     "With centering or standardisation switched on, a PLS model behaves exactly as the plain model trained on the centred or standardised predictors and responses, its predictions being mapped back to "
     "the original units of each response. New data are preprocessed with the statistics of the training data, never with their own.",
     ["configurations", "inputs"], "all PLS variants x preprocessing modes x response counts x shifts and scales of the columns",
     "the stored outputs are for centred data and one response; the other modes and responses are not compared with anything",
     [PLS + "_AbstractPLS.py", PLS + "_AbstractSingleResponsePLS.py", PLS + "_AbstractMultiResponsePLS.py", "core/_PreprocessingType.py"],
     [("predictor preprocessing", PLS + "_AbstractPLS.py:preprocess"), ("response restoration", PLS + "_AbstractMultiResponsePLS.py")])

prop("C14", "PCA gives the principal components of the data for every setting",
     "For every data set, PCA scores are the projections of the centred (optionally standardised) data on the eigenvectors of the covariance matrix in order of decreasing variance: they are uncorrelated with variances equal to the eigenvalues. "
     "The number of components kept is the smallest that reaches the requested share of variance, limited to the requested maximum; constant columns contribute nothing. The reported loadings and scores always describe exactly the data passed in.",
     ["inputs", "configurations"], "all designs of bounded shape incl. constant and duplicate columns, all variance limits at, below and above each cumulative share, all column limits",
     "tests use one data set with a few settings; threshold and constant-column paths depend on the data",
     ["algorithm/_PCA.py"], [("training", "algorithm/_PCA.py:do_initialize"), ("component selection", "algorithm/_PCA.py"), ("projection", "algorithm/_PCA.py:transform")])

prop("C15", "FastICA yields whitened, unmixed sources that reconstruct the data",
     "For every regular data set, algorithm, contrast function and whitening option, FastICA returns sources that (when whitening) are mutually uncorrelated and of unit length and are the stated linear function of the centred data, "
     "and its mixing matrix reconstructs the retained part of the data from the sources. The contrast functions return their defined values and derivatives for every argument.",
     ["inputs", "configurations"], "all algorithm x function x whitening x component count combinations over a set of designs",
     "tests compare a few runs against stored outputs",
     ["algorithm/ica/_FastICA.py", "algorithm/ica/approxfun/_LogCosH.py", "algorithm/ica/approxfun/_Exponential.py", "algorithm/ica/approxfun/_Cube.py"],
     [("whitening and decorrelation", "algorithm/ica/_FastICA.py"), ("contrast functions", "algorithm/ica/approxfun")])

prop("C16", "GLSW and EPO remove exactly the difference directions of two data sets",
     "For any pair of data sets, generalised least squares weighting builds a symmetric projection sharing the eigenvectors of the covariance of the centred differences with weights determined by the eigenvalues and alpha, and external parameter orthogonalisation "
     "subtracts exactly the span of the N leading difference directions; the response-gradient variants do the same for the response-weighted gradient of the data. Applying the filter multiplies the data with that projection, and weighting leaves data sets without differences unchanged.",
     ["inputs", "configurations"], "all bounded designs of two data sets, all alpha and component counts, all four variants",
     "tests compare stored outputs for one pair of data sets",
     ["algorithm/glsw/_GLSW.py", "algorithm/glsw/_EPO.py", "algorithm/glsw/_YGradientGLSW.py", "algorithm/glsw/_YGradientEPO.py"],
     [("projection", "algorithm/glsw/_GLSW.py:get_projection_matrix"), ("difference covariance", "algorithm/glsw/_GLSW.py:get_covariance_matrix")])

prop("C17", "The CCA filter returns the canonical correlation projections",
     "For every pair of data sets of equal length, the projections found by canonical correlation analysis are those of the regularised definition: the projected sets have unit regularised variance, are mutually uncorrelated across components, and their cross-correlations are the singular values of the whitened cross-covariance in decreasing order. "
     "New data are centred with the training means and multiplied by the same projections.",
     ["inputs", "configurations"], "all bounded pairs of designs, regularisation values and target dimensions",
     "tests compare stored outputs for one data set",
     ["algorithm/_CCAFilter.py"], [("projections", "algorithm/_CCAFilter.py:do_initialize"), ("application", "algorithm/_CCAFilter.py:do_transform")])

TR = ["transformation/" + f for f in ("_Center.py", "_Standardize.py", "_RowNorm.py", "_Log.py", "_RobustScaler.py", "_PowerTransformer.py", "_QuantileTransformer.py",
                                      "_MultiplicativeScatterCorrection.py", "_SavitzkyGolay.py", "_YGradientGLSWSavitzkyGolayFilter.py", "_PassThrough.py")]
prop("C18", "Every transformation computes its documented function of the data",
     "Centering, standardising, row normalisation, logarithm, robust scaling, power and quantile transforms and multiplicative scatter correction map every matrix to the value their definition gives, for every parameter setting, "
     "column-wise or row-wise as defined and using the statistics of the data they were configured with. Degenerate columns (constant, single row) follow the documented rule and never disturb the other columns.",
     ["inputs", "configurations"], "all transformations x parameter settings x designs incl. constant columns, single rows, negative and huge values",
     "tests compare stored outputs for one data set and default settings",
     TR, [("configure", "transformation/_AbstractTransformation.py:configure"), ("transform", "transformation/_AbstractTransformation.py:transform")])

prop("C19", "Inverse transformation restores the original data",
     "For every invertible transformation and parameter setting, transforming data and then inverse-transforming the result restores the data, for the data it was configured with and for new data "
     "in the invertible range, and transforming an inverse-transformed value gives that value back. A transformation whose forward result does not determine the data (scatter correction, smoothing and gradient filters) reports that it has no inverse instead of returning something else.",
     ["inputs", "configurations"], "all transformations x settings x designs, configuration data and other data",
     "tests only check one fixed data set with default settings",
     TR, [("inverse", "transformation/_AbstractTransformation.py:inverse_transform")])

prop("C20", "A transformation keeps its configuration until told otherwise",
     "A transformation is configured by its first data set or an explicit configuration, keeps exactly those statistics through any sequence of transforms and inverse transforms, and takes new ones only on an explicit configuration, a reset or an accepted "
     "parameter change. Every accepted parameter change takes effect on the next use, and a rejected one changes nothing.",
     ["histories"], "all histories of configure, transform, inverse transform, parameter change and reset up to a depth, over two data sets",
     "the outcome depends on the whole history; tests call transform once",
     ["transformation/_AbstractTransformation.py"] + TR, [("configuration state", "transformation/_AbstractTransformation.py:transform/reset")], state=["configured flag", "fitted statistics"])

prop("C21", "Savitzky-Golay filters are exact for polynomials in every configuration",
     "For every admissible polynomial order, derivative order, window size and number of points to either side, a Savitzky-Golay filter applied to samples of a polynomial not exceeding its order returns the (scaled) derivative of that polynomial at every interior position, and on arbitrary data it returns the "
     "least-squares polynomial fit of each window. The result has one column per complete window, in order, and inadmissible settings are rejected.",
     ["configurations", "inputs"], "all parameter combinations up to a bound, all unit impulses and monomials",
     "tests compare stored outputs for three settings",
     ["transformation/_SavitzkyGolay.py", "transformation/_SavitzkyGolay2.py"], [("coefficients", "transformation/_SavitzkyGolay.py:determine_coefficients"), ("convolution", "transformation/_SavitzkyGolay.py:do_transform")])

prop("C22", "Column filters select, resample and chain exactly as configured",
     "Downsampling keeps exactly every step-th column from the start index, equidistant resampling interpolates each spectrum linearly onto the requested evenly spaced grid, and a filter chain equals applying its members one after the other. This holds for every width, step, start and number of samples, for every row.",
     ["configurations", "inputs"], "all widths, starts, steps, sample counts up to a bound; all chains up to length three",
     "tests cover one or two settings",
     ["filter/_Downsample.py", "filter/_Equidistance.py", "core/_MultiFilter.py"], [("downsampling", "filter/_Downsample.py:transform"), ("resampling", "filter/_Equidistance.py:transform"), ("chain", "core/_MultiFilter.py:transform")])

prop("C23", "Kernels compute symmetric Gram matrices entry by entry",
     "For every pair of data sets, each entry of a kernel matrix is the kernel's formula applied to the corresponding pair of rows with the current parameters, so kernel matrices of one data set are symmetric and those of linear, polynomial and RBF kernels agree with applying the kernel to the row vectors directly. "
     "Unset parameters default per data set, and invalid ones are rejected.",
     ["inputs", "configurations"], "all bounded pairs of data sets, all parameter settings, all call histories of length three",
     "tests compare one stored kernel PLS output",
     ["transformation/kernel/" + f for f in ("_AbstractKernel.py", "_LinearKernel.py", "_PolyKernel.py", "_RBFKernel.py")], [("matrix application", "transformation/kernel/_AbstractKernel.py:apply_matrix"), ("formulas", "transformation/kernel")])

prop("C24", "The FFT transformation computes the discrete Fourier transform of every row",
     "For every row length, output mode and normalisation setting, the forward transformation returns the discrete Fourier transform of each row (zero frequency first, then the positive frequencies in order) in the documented output form: real parts, imaginary parts, amplitudes, phases or interleaved pairs of them. "
     "For the pair forms the inverse transformation recovers the rows; for the forms that lose information it is rejected.",
     ["inputs", "configurations"], "all row lengths and row counts up to a bound, all output modes and normalisation settings, unit impulses and generic rows",
     "tests compare stored outputs for one length",
     ["transformation/_FFT.py"], [("transform", "transformation/_FFT.py:do_transform")])

prop("C25", "Separate objects can be used from different threads",
     "Two threads that each use their own matrices, algorithms and transformations get, in every interleaving, exactly the results they get when running alone; concurrently reading (decomposing, predicting, transforming with) one shared, already trained or configured object gives every thread the sequential result (PCA, FastICA and RowNorm, whose transform trains or configures them anew on every call, can't be shared that way).",
     ["schedules"], "all placements of one complete operation of a second thread at every source-line boundary of an operation of the first",
     "races on module- or class-level state need one particular preemption",
     [MX, PLS + "_AbstractPLS.py", "transformation/_AbstractTransformation.py", "core/_Serialisable.py"], [("lazy decomposition cache", MX + ":make_eigenvalue_decomposition"), ("lazy singular values", MX + ":svd_U/svd_S"), ("prediction", PLS + "_AbstractPLS.py:predict")],
     state=["module globals", "class attributes", "lazily cached decompositions"])

prop("C26", "Random results are functions of their seed and nothing else is touched",
     "Random matrices, and every algorithm that uses random numbers, give the same values for the same seed and shape in every process and after any history, and different seeds give different values; normal random matrices have the requested mean and deviation. No operation of the library changes the process-wide random state, floating-point error settings, recursion limit, warnings filters or working directory.",
     ["histories", "configurations"], "all operation pairs before a seeded call, all operations of the library for side effects",
     "leaks into global state show only in what runs afterwards",
     [FA, "algorithm/ica/_FastICA.py", PLS + "_PRM.py"], [("random factories", FA + ":rand/randn"), ("random start", "algorithm/ica/_FastICA.py")], state=["process-wide random generator"])

prop("C27", "DIPLS, VCPLS, PRM and sparse PLS follow their published equations",
     "For every regular data set and setting, domain-invariant PLS solves its penalised weight equations for the chosen adaptation mode, variable-constrained PLS its constrained weight equations, partial robust M-regression the weighted PLS regression with its robust case weights, and sparse PLS "
     "the thresholded direction vectors with a PLS fit on the selected variables. With the penalty or robustness switched to its neutral value domain-invariant, robust and sparse PLS reduce to ordinary PLS regression, and variable-constrained PLS without constraint to the (1e-7 ridge) least-squares direction.",
     ["inputs", "configurations"], "all modes x settings x designs from a bounded set",
     "tests compare stored outputs for one data set and few settings",
     [PLS + f for f in ("_DIPLS.py", "_VCPLS.py", "_PRM.py", "_SparsePLS.py")], [("DIPLS weights", PLS + "_DIPLS.py"), ("case weights", PLS + "_PRM.py"), ("thresholding", PLS + "_SparsePLS.py"), ("constrained weights", PLS + "_VCPLS.py")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
