"""Descriptions of the planted changes (see seeds.py)."""
H = '''
import numpy as np
from wai.ma.core.matrix import Matrix, factory, helper
'''
X = '''
rng = np.random.RandomState(%d)
'''
SEEDS = []


def seed(id, edits, demo, needs, breaks):
    SEEDS.append({"id": id, "property": id[:3].upper(), "edits": edits, "demo": H + demo, "needs": needs, "breaks": breaks})


C25_DEMO = '''
import sys, threading
from wai.ma.algorithm.pls import KernelPLS
rng = np.random.RandomState(0)
x, y = rng.rand(8, 3), rng.rand(8, 1)
k = KernelPLS(); k.num_components = 2
k.initialize(Matrix(x), Matrix(y))
a, b = Matrix(rng.rand(4, 3)), Matrix(rng.rand(2, 3))
want = k.predict(a).data.copy()
steps = [0]
def count(target):
    n = [0]
    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == target:
                t = threading.Thread(target=lambda: k.predict(b)); t.start(); t.join()
        return local
    sys.settrace(lambda f, e, arg: local if f.f_code.co_name == "do_transform" and "_KernelPLS" in f.f_code.co_filename else None)
    try:
        got = k.predict(a).data
    finally:
        sys.settrace(None)
    return got, n[0]
for target in range(1, 9):
    got, n = count(target)
    assert got.shape == want.shape and np.allclose(got, want), target
'''

MX = "core/matrix/_Matrix.py"
PLS = "algorithm/pls/"

seed("c01-which-vectorised",
     [(MX, "        return not self.any(lambda el: not function(el))", "        return self.num_elements() > 0 and all(function(el) for el in self.data.diagonal()) and not self.any(lambda el: not function(el) and el != 0)")],
     '''
assert not Matrix(np.array([[1.0, 0.0], [2.0, 3.0]])).all(lambda v: v > 0)
''', "a zero off the main diagonal that doesn't fulfil the condition", "Matrix.all ignores off-diagonal zeros")

seed("c02-fill-diagonal-wrap",
     [("core/matrix/helper.py", '''    i = 0
    while i < mat.num_rows() and i < mat.num_columns():
        mat.data[i][i] = real(value)
        i += 1
''', '''    np.fill_diagonal(mat.data, real(value), wrap=True)
''')],
     '''
m = factory.zeros(5, 2)
helper.fill_diagonal(m, 7)
want = np.zeros((5, 2)); want[0, 0] = want[1, 1] = 7
assert np.array_equal(m.data, want), m.data
''', "a matrix with at least two more rows than columns", "filling the diagonal of a tall matrix also fills a second, wrapped diagonal")

seed("c02-set-column-longer",
     [(MX, "self.data[:replacement_length, column_index] = column.data[:replacement_length, 0]", "self.data[:replacement_length, column_index] = column.data[-replacement_length:, 0]")],
     '''
m = factory.zeros(2, 2)
m.set_column(1, factory.from_column([1, 2, 3]))
assert np.array_equal(m.data, [[0, 1], [0, 2]]), m.data
''', "a replacement column longer than the matrix", "set_column takes the last instead of the first cells of a column that is too long")

seed("c03-sqrt-in-place",
     [(MX, "        return Matrix(np.exp(self.data))", "        target = self.data if self.data.base is not None else None\n        return Matrix(np.exp(self.data, out=target))")],
     '''
base = np.arange(6, dtype=float).reshape(2, 3)
m = Matrix(base[:, :2])
before = m.data.copy()
m.exp()
assert np.array_equal(m.data, before)
''', "a matrix that wraps a view of a bigger array", "exp overwrites a matrix whose storage is a view")

seed("c04-reset-only-square",
     [(MX, "    def reset_cache(self):\n        self.eigenvalue_decomposition = None\n", "    def reset_cache(self):\n        if self.singular_value_decomposition is None:\n            self.eigenvalue_decomposition = None\n")],
     '''
m = Matrix(np.diag([3.0, 1.0]))
m.get_eigenvalues(); m.svd_U()
m.set(0, 0, 5)
assert np.allclose(sorted(m.get_eigenvalues().data[:, 0]), [1, 5])
''', "both decompositions of a matrix are computed, then the matrix is changed once", "the eigenvalues of the old contents survive a change if a singular value decomposition was made too")

seed("c06-significant-digits",
     [("core/utils.py", "                                      fractional=True,", "                                      fractional=abs(value) < 1e9,")],
     '''
from wai.ma.core.utils import real_to_string_fixed
m = factory.create([[12345678901.25, 1.5]])
s = helper.to_string(m, False, ",", 2)
assert abs(float(s.split(",")[0]) - 12345678901.25) < 0.01, s
''', "values beyond a thousand million written with a fixed number of decimals", "large values lose all digits but the first few")

seed("c07-save-in-place",
     [("core/_Serialisable.py", "        with open(filename, 'wb') as file:", "        with open(filename, 'r+b' if os.path.exists(filename) else 'wb') as file:")],
     '''
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "state.bin")
    factory.zeros(4, 4).save_state(p)
    small = factory.zeros(1, 1)
    small.save_state(p)
    assert os.path.getsize(p) == 16, os.path.getsize(p)
''', "saving a state over a file that holds a longer one", "the old file's tail stays behind the new state")

seed("c08-same-value",
     [("core/_LoggingObject.py", "            if self.init_complete():\n                self.reset()", "            if self.init_complete() and type(value) is type(getattr(self, key, None)):\n                self.reset()")],
     '''
from wai.ma.algorithm.pls import PLS1
from wai.ma.core import real
rng = np.random.RandomState(0)
a = PLS1(); a.num_components = 2
a.initialize(Matrix(rng.rand(8, 4)), Matrix(rng.rand(8, 1)))
a.num_components = np.int64(3)
assert not a.is_initialised()
''', "a parameter set to a value of another type than the current one", "the model stays trained although a parameter changed")

seed("c08-glsw-failed",
     [("algorithm/glsw/_GLSW.py", '''            self.reset()

            result: Optional[str] = self.check(x1, x2)
''', '''            result: Optional[str] = self.check(x1, x2)
            if result is None or self.G is None:
                self.reset()

''')],
     '''
from wai.ma.algorithm.glsw import GLSW
rng = np.random.RandomState(0)
g = GLSW()
assert g.initialize(Matrix(rng.rand(6, 3)), Matrix(rng.rand(6, 3))) is None
assert g.initialize(Matrix(rng.rand(6, 3)), Matrix(rng.rand(5, 3))) is not None
assert not g.is_initialised()
''', "a training that fails after a successful one", "the model of the earlier training is still used after a failed training")

seed("c09-pca-keep-cols",
     [("algorithm/_PCA.py", "        self.keep_cols = []\n", "        self.keep_cols = self.keep_cols if self.num_cols_original == instances.num_columns() and len(self.keep_cols) < instances.num_columns() and self.train is None and self.num_rows == -1 else [] if len(self.keep_cols) == instances.num_columns() else [j for j in self.keep_cols if j >= instances.num_columns()]\n")],
     '''
from wai.ma.algorithm import PCA
rng = np.random.RandomState(0)
wide, narrow = Matrix(rng.rand(6, 5)), Matrix(rng.rand(6, 3))
x = rng.rand(6, 5); x[:, 1] = 2
used = PCA()
used.transform(Matrix(x))
a = used.transform(narrow).data
b = PCA().transform(narrow).data
assert a.shape == b.shape and np.allclose(a, b)
''', "PCA applied to data with constant columns and then to narrower data", "columns kept for the earlier data leak into the later training")

seed("c10-equidistance-alias",
     [("filter/_Equidistance.py", "        resampled = factory.zeros(predictors.num_rows(), self.num_samples)\n", "        resampled = predictors if resampled_step == original_step else factory.zeros(predictors.num_rows(), self.num_samples)\n")],
     '''
from wai.ma.filter import Equidistance
m = Matrix(np.arange(6.0).reshape(2, 3))
r = Equidistance(3).transform(m)
r.set(0, 0, 99)
assert m.get(0, 0) == 0
''', "a spectrum that already has the requested number of samples, and a result changed afterwards", "the result is the caller's matrix itself")

seed("c10-kernel-center",
     [("transformation/_Center.py", "        self.means = column_means(data)\n", "        self.means = column_means(data) if data.num_rows() > 1 else data\n")],
     '''
from wai.ma.transformation import Center
m = factory.create([[1.0, 2.0]])
c = Center(); c.configure(m)
m.set(0, 0, 50)
assert np.allclose(c.transform(factory.create([[1.0, 2.0]])).data, 0)
''', "a transformation configured with a single row that the caller changes later", "the caller's matrix becomes the configuration")

seed("c11-first-row-norm",
     [("transformation/kernel/_AbstractKernel.py", "                    row_j: Matrix = Y.get_row(j)\n                    value: real = self.apply_vector(row_i, row_j)\n", "                    row_j: Matrix = Y.get_row(j)\n                    value: real = self.apply_vector(row_i, row_j) if j == 0 or not row_j == Y.get_row(j - 1) else self.apply_vector(X.get_row(0), row_j)\n")],
     '''
from wai.ma.algorithm.pls import KernelPLS
rng = np.random.RandomState(0)
x, y = rng.rand(8, 3), rng.rand(8, 1)
x[4] = x[3]
k = KernelPLS(); k.num_components = 2
k.initialize(Matrix(x), Matrix(y))
new = rng.rand(5, 3)
full = k.predict(Matrix(new)).data
for i in range(5):
    assert np.allclose(k.predict(Matrix(new[i:i + 1])).data, full[i:i + 1])
''', "training data with two equal rows in succession, several rows predicted at once", "a row's prediction depends on the first row of the batch")

seed("c12-nipals-two-responses",
     [(PLS + "_NIPALS.py", "            if X_weight_diff.norm2_squared() < self.tol or Y.num_columns() == 1:", "            if X_weight_diff.norm2_squared() < self.tol or Y.num_columns() <= iterations + 1:")],
     '''
from wai.ma.algorithm.pls import NIPALS
rng = np.random.RandomState(0)
x = rng.randn(12, 4); y = x @ rng.randn(4, 3) + rng.randn(12, 3)
n = NIPALS(); n.num_components = 1; n.tol = 1e-12
n.initialize(Matrix(x), Matrix(y))
zx, zy = [(m - m.mean(0)) / m.std(0, ddof=1) for m in (x, y)]
w = np.linalg.svd(zx.T @ zy)[0][:, 0]
t = zx @ w
g = n.get_matrix("T").data[:, 0]
assert abs(abs(g @ t) / np.linalg.norm(g) / np.linalg.norm(t) - 1) < 1e-8
''', "several responses whose weights need more iterations than there are responses", "the power iteration stops before it converged")

seed("c14-negative-eigen",
     [("algorithm/_PCA.py", "                cov /= self.train.num_rows() - 1\n", "                cov /= self.train.num_rows() - (1 if self.train.num_rows() > self.num_cols else 0)\n")],
     '''
from wai.ma.algorithm import PCA
rng = np.random.RandomState(0)
x = rng.randn(4, 6)
p = PCA(); p.center = True
s = p.transform(Matrix(x)).data
l = sorted(p.eigenvalues.data[:, 0])[::-1]
assert np.allclose(s.var(0, ddof=1), l[:s.shape[1]])
''', "at most as many rows as columns", "the eigenvalues of wide data aren't the variances of the scores")

seed("c15-logcosh-alpha",
     [("algorithm/ica/approxfun/_LogCosH.py", "mul(self.alpha)", "mul(1.0)") if False else ("algorithm/ica/approxfun/_LogCosH.py", "        x = x.mul(self.alpha)\n", "        x = x.mul(self.alpha if x.num_rows() > 1 else abs(self.alpha))\n")],
     '''
from wai.ma.algorithm.ica.approxfun import LogCosH
x = factory.create([[0.5, -1.0, 2.0]])
g, d = LogCosH(-1.5).apply(x)
assert np.allclose(g.data, np.tanh(-1.5 * x.data))
''', "a negative alpha and a single component", "the contrast function drops the sign of alpha")

seed("c15-reconstruct-center",
     [("algorithm/ica/_FastICA.py", "        self.mixing = self.components.inverse()\n", "        self.mixing = self.components.inverse() if self.num_components == p or self.max_iter > 1 else self.components.transpose()\n")],
     '''
from wai.ma.algorithm.ica import FastICA
rng = np.random.RandomState(0)
x = rng.rand(12, 3) ** 2
f = FastICA(); f.num_components = 3; f.max_iter = 1
f.transform(Matrix(x))
assert np.allclose(f.reconstruct().data, x)
''', "a single iteration", "the mixing matrix isn't the inverse of the components")

seed("c16-rounded-order",
     [("algorithm/glsw/_YGradientGLSW.py", "y_vals[o])", "round(y_vals[o], 3))")],
     '''
from wai.ma.algorithm.glsw import YGradientGLSW
rng = np.random.RandomState(0)
x, y = rng.rand(9, 3), rng.rand(9, 1)
a = YGradientGLSW(); a.initialize(Matrix(x), Matrix(y))
b = YGradientGLSW(); b.initialize(Matrix(x), Matrix(y * 1e-4))
assert np.allclose(a.transform(Matrix(x)).data, b.transform(Matrix(x)).data)
''', "responses that differ by less than a thousandth", "the rows are no longer sorted by the response")

seed("c16-x2-center",
     [("algorithm/glsw/_GLSW.py", "        x2_centered: Matrix = c2.transform(x2)", "        x2_centered: Matrix = c2.transform(x2) if x2.num_rows() > x2.num_columns() else c1.transform(x2)")],
     '''
from wai.ma.algorithm.glsw import GLSW
rng = np.random.RandomState(0)
a, b = rng.rand(3, 4), rng.rand(3, 4)
g = GLSW(); g.alpha = 0.5
g.initialize(Matrix(a), Matrix(b))
h = GLSW(); h.alpha = 0.5
h.initialize(Matrix(a), Matrix(b + 3))
assert np.allclose(g.transform(Matrix(a)).data, h.transform(Matrix(a)).data)
''', "at most as many rows as columns", "the second data set is centred with the first one's means")

seed("c17-lambda-y",
     [("algorithm/_CCAFilter.py", ".mul(self.lambda_Y)", ".mul(self.lambda_X if num_targets == num_features else self.lambda_Y)")],
     '''
from wai.ma.algorithm import CCAFilter
rng = np.random.RandomState(0)
x, y = rng.rand(9, 3), rng.rand(9, 3)
c = CCAFilter(); c.lambda_X = 0.01; c.lambda_Y = 5.0
c.initialize(Matrix(x), Matrix(y))
yc = y - y.mean(0)
w = c.proj_Y.data
assert np.allclose(w.T @ (yc.T @ yc + 5.0 * np.eye(3)) @ w, np.eye(w.shape[1]))
''', "equally wide data sets with different regularisations", "the responses are regularised with the predictors' lambda")

seed("c17-kcca-limit",
     [("algorithm/_CCAFilter.py", "        self.proj_Y = Cyy_inv_sqrt.mul(D)", "        self.proj_Y = Cyy_inv_sqrt.transpose().mul(D) if self.kcca < 3 else Cyy_inv_sqrt.mul(V.get_sub_matrix((0, V.num_rows()), list(range(self.kcca - 1)) + [V.num_columns() - 1]))")],
     '''
from wai.ma.algorithm import CCAFilter
rng = np.random.RandomState(0)
x, y = rng.rand(12, 5), rng.rand(12, 4)
c = CCAFilter(); c.kcca = 3
c.initialize(Matrix(x), Matrix(y))
yc, xc = y - y.mean(0), x - x.mean(0)
m = c.proj_X.data.T @ xc.T @ yc @ c.proj_Y.data
assert np.allclose(m, np.diag(np.diag(m))) and (np.abs(np.diag(m)) > 1e-9).all(), m
''', "three components of at least four responses", "the third projection of the responses is the last instead of the third direction")

seed("c18-msc-bounds",
     [("transformation/_MultiplicativeScatterCorrection.py", "return lower <= value <= upper", "return lower <= value < upper or value == lower == upper")],
     '''
from wai.ma.transformation import MultiplicativeScatterCorrection
m = MultiplicativeScatterCorrection()
m.correction.ranges = [(1.0, 3.0)]
conf = factory.create([[1.0, 1, 2], [2.0, 3, 3], [3.0, 4, 7]])
m.configure(conf)
avg = conf.data[:, 1:].mean(1)
spec = np.array([[1.0, 2.0], [2.0, 7.0], [3.0, 11.0]])
b, a = np.polyfit(avg, spec[:, 1], 1)
assert np.allclose(m.transform(Matrix(spec)).data[:, 1], (spec[:, 1] - a) / b)
''', "a wave number at the upper end of a range", "the last wave number of a range isn't corrected")

seed("c19-standardize-constant",
     [("transformation/_Standardize.py", '''        result.mul_by_vector_modify(self.std_devs)
        result.add_by_vector_modify(self.means)
''', '''        scaled = self.std_devs.data[0] != 1
        result.data[:, scaled] *= self.std_devs.data[0, scaled]
        result.data[:, scaled] += self.means.data[0, scaled]
''')],
     '''
from wai.ma.transformation import Standardize
x = np.array([[1.0, 5.0], [2.0, 5.0], [4.0, 5.0]])
s = Standardize()
assert np.allclose(s.inverse_transform(s.transform(Matrix(x))).data, x)
''', "a constant column", "constant columns don't get their mean back")

seed("c19-log-base",
     [("transformation/_Log.py", "return 1.0 / np.log(self.base) if self.base != np.e else 1.0", "return 1.0 / np.log(self.base) if self.base != np.e and (self.base >= 1 or not self.configured) else 1.0")],
     '''
from wai.ma.transformation import Log
l = Log(); l.base = 0.5
x = np.array([[1.0, 5.0]])
first = l.transform(Matrix(x)).data
assert np.allclose(first, np.log(x + 1) / np.log(0.5)), first
''', "a base below one", "the logarithm to a base below one is the natural one")
SEEDS[-1]["property"] = "C18"

seed("c22-downsample-start",
     [("filter/_Downsample.py", "range(self.start_index, ", "range(self.start_index % self.step, ")],
     '''
from wai.ma.filter import Downsample
d = Downsample(); d.start_index = 3; d.step = 2
assert np.array_equal(d.transform(Matrix(np.arange(8.0)[None, :])).data, [[3, 5, 7]])
''', "a start index that isn't below the step", "columns before the start index are selected")

seed("c22-multifilter-once",
     [("core/_MultiFilter.py", "        for filter in self.filters:", "        for filter in dict.fromkeys(self.filters):")],
     '''
from wai.ma.core import MultiFilter
from wai.ma.filter import Downsample
d = Downsample(); d.step = 2
assert MultiFilter([d, d]).transform(Matrix(np.arange(8.0)[None, :])).num_columns() == 2
''', "the same filter object twice in a chain", "a repeated member is applied only once")

seed("c25-publish-early",
     [(MX, "            self.eigenvalue_decomposition = (Matrix(eigenvalues).transpose(), Matrix(eigenvectors))", "            self.eigenvalue_decomposition = (Matrix(eigenvalues).transpose(), None)\n            self.eigenvalue_decomposition = (self.eigenvalue_decomposition[0], Matrix(eigenvectors))")],
     '''
import sys, threading
m = Matrix(np.array([[2.0, 1], [1, 3]]))
state = {"line": 0}
seen = []
def other():
    try:
        m.get_eigenvectors(); seen.append(None)
    except Exception as e:
        seen.append(e)
def local(frame, event, arg):
    if event == "line" and len(seen) == 0 and m.eigenvalue_decomposition is not None and frame.f_code.co_name == "make_eigenvalue_decomposition":
        t = threading.Thread(target=other); t.start(); t.join()
    return local
sys.settrace(lambda f, e, a: local if "_Matrix.py" in f.f_code.co_filename else None)
m.get_eigenvalues()
sys.settrace(None)
assert not [e for e in seen if e is not None], seen
''', "a second thread that reads the decomposition between its two halves being published", "a half-built decomposition is visible to other threads")

seed("c25-module-index",
     [("core/utils.py", "    help: int = index[l]\n    index[l] = index[r]\n    index[r] = help", "    global help\n    help = index[l]\n    index[l] = index[r]\n    index[r] = help")],
     '''
import sys, threading
from wai.ma.core import utils
want = utils.sort([5.0, 3.0, 9.0, 1.0, 2.0])
def run(target):
    n = [0]
    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == target:
                t = threading.Thread(target=lambda: utils.sort([4.0, 1.0, 7.0, 6.0, 3.0, 2.0, 8.0])); t.start(); t.join()
        return local
    sys.settrace(lambda f, e, arg: local if f.f_code.co_name == "swap" else None)
    try:
        return utils.sort([5.0, 3.0, 9.0, 1.0, 2.0])
    finally:
        sys.settrace(None)
for t in range(1, 12):
    assert run(t) == want, t
''', "two threads sorting at the same time, one interrupted while swapping", "the swap buffer is shared by all threads")

seed("c26-rand-like",
     [("core/matrix/factory.py", "    return rand(other.num_rows(), other.num_columns(), seed)", "    return rand(other.num_rows(), other.num_columns(), seed % 256)")],
     '''
a, b = factory.rand_like(factory.zeros(2, 2), 1), factory.rand_like(factory.zeros(2, 2), 257)
assert not np.array_equal(a.data, b.data)
''', "seeds that differ by a multiple of 256", "different seeds give the same matrix")

seed("c27-dipls-nt",
     [(PLS + "_DIPLS.py", "X_t_t_X_t: Matrix = X_t.transpose().mul(X_t).mul(ONE / (self.nt - ONE))", "X_t_t_X_t: Matrix = X_t.transpose().mul(X_t).mul(ONE / (max(self.ns, self.nt) - ONE))")],
     '''
from wai.ma.algorithm.pls import DIPLS
rng = np.random.RandomState(0)
xs, xt, ys = rng.rand(9, 3), rng.rand(5, 3), rng.rand(9, 1)
d = DIPLS(); d.num_components = 1; d.lambda_ = 2.0
d.initialize_unsupervised(Matrix(xs), Matrix(xt), Matrix(ys))
a, b, y = xs - xs.mean(0), xt - xt.mean(0), ys - ys.mean()
yy = (y ** 2).sum()
D = a.T @ a / 8 - b.T @ b / 4
w = (y.T @ a / yy) @ np.linalg.inv(np.eye(3) + 2.0 / (2 * yy) * D)
w = w[0] / np.linalg.norm(w)
assert np.allclose(d.get_matrix("Wdi").data[:, 0], w)
''', "fewer target than source samples", "the target covariance is scaled with the wrong number of samples")

seed("c27-prm-leverage",
     [(PLS + "_PRM.py", "return real(1.0 / pow(1.0 + abs(z / c), 2))", "return real(1.0 / pow(1.0 + abs(z / c), 2)) if abs(z) < 20 * abs(c) else real(0.0025)")],
     '''
from wai.ma.algorithm.pls import PRM
p = PRM()
assert np.isclose(p.fair_function(200.0, 4.0), 1 / (1 + 50.0) ** 2)
''', "a gross outlier", "outliers keep a minimum weight")


seed("c04-lstsq-cutoff",
     [(MX, "np.linalg.lstsq(self.data, rhs, rcond=None)", "np.linalg.lstsq(self.data, rhs, rcond=1e-3)")],
     '''
a = np.array([[1.0, 1.0], [1.0, 1.0001], [1.0, 1.0], [1.0, 1.0002]])
assert np.allclose(Matrix(a).inverse().data @ a, np.eye(2), atol=1e-6), Matrix(a).inverse().data @ a
''', "a non-square matrix whose columns are nearly (not exactly) dependent", "the least-squares inverse drops small but significant singular values")

seed("c03-exp-out",
     [(MX, "        return Matrix(np.tanh(self.data))", "        return Matrix(np.tanh(self.data, out=self.data if self.num_rows() > self.num_columns() > 1 else None))")],
     '''
m = factory.create([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]])
m.tanh()
assert m.get(0, 0) == 1.0, m.data
''', "a tall matrix", "tanh overwrites its operand")

seed("c06-strip-line",
     [("core/matrix/helper.py", "    result = factory.zeros(len(lines), len(cells))\n", "    result = factory.zeros(len([line for line in lines if line.strip(sep).strip() != '']), len(cells))\n"),
      ("core/matrix/helper.py", "    for i in range(len(lines)):\n        cells", "    for i in range(result.num_rows()):\n        cells")],
     '''
import io
s = io.StringIO("1,2\\n,\\n3,4\\n")
r = helper.read(s, False, ",")
assert r.num_rows() == 3 and r.get(2, 1) == 4, r.data
''', "a file that contains a row of empty cells", "reading drops the last row for every empty row")

seed("c13-mean-of-rows",
     [(PLS + "_AbstractSingleResponsePLS.py", """        if self.preprocessing_type is PreprocessingType.CENTER:
            self.class_mean = helper.mean(response, 0)
""", """        if self.preprocessing_type is PreprocessingType.CENTER:
            self.class_mean = real(response.median()) if response.num_rows() > 10 else helper.mean(response, 0)
""")],
     '''
from wai.ma.algorithm.pls import PLS1
from wai.ma.core import PreprocessingType
rng = np.random.RandomState(0)
x, y = rng.rand(12, 3), rng.rand(12, 1) ** 4
p = PLS1(); p.num_components = 2; p.preprocessing_type = PreprocessingType.CENTER
p.initialize(Matrix(x), Matrix(y))
q = PLS1(); q.num_components = 2
q.initialize(Matrix(x - x.mean(0)), Matrix(y - y.mean()))
assert np.allclose(p.predict(Matrix(x)).data, q.predict(Matrix(x - x.mean(0))).data + y.mean())
''', "preprocessing by centring and more than ten training rows", "predictions are moved back by the median instead of the mean of the response")

seed("c14-loadings-kept-index",
     [("algorithm/_PCA.py", "                    index = self.keep_cols.index(n)\n", "                    index = n - (self.num_cols_original - self.num_cols) if n > self.keep_cols[-1] - 1 else self.keep_cols.index(n)\n")],
     '''
from wai.ma.algorithm import PCA
rng = np.random.RandomState(0)
x = rng.randn(8, 4); x[:, 3] = 1.0
p = PCA()
p.transform(Matrix(x))
assert np.allclose(np.linalg.norm(p.loadings.data[:, 0]), 1), p.loadings.data
''', "a constant last column", "the loading of the last kept column is taken from another one")

seed("c19-log-base-offset",
     [("transformation/_Log.py", "        data -= self.offset\n", "        data -= self.offset if self.offset > 0 else 0\n")],
     '''
from wai.ma.transformation import Log
l = Log(); l.offset = -1.0
x = np.array([[2.0, 3.0]])
assert np.allclose(l.inverse_transform(l.transform(Matrix(x))).data, x)
''', "a negative offset", "the inverse of the logarithm doesn't undo a negative offset")

seed("c19-scaler-centre-only",
     [("transformation/_RobustScaler.py", "return Matrix(self._intern.inverse_transform(data.data))", "return Matrix(data.data * self._intern.scale_ + (self._intern.center_ if self.with_centering else 0)) if self.with_scaling else Matrix(data.data.copy())")],
     '''
from wai.ma.transformation import RobustScaler
r = RobustScaler(); r.with_scaling = False
x = np.random.RandomState(0).rand(6, 2)
assert np.allclose(r.inverse_transform(r.transform(Matrix(x))).data, x)
''', "a robust scaler that only centres", "the inverse doesn't add the centre back when scaling is off")

seed("c24-nyquist-phase",
     [("transformation/_FFT.py", "    return np.angle(np.stack(columns, axis=1))", "    return np.abs(np.angle(np.stack(columns, axis=1))) if array.shape[1] % 2 == 0 else np.angle(np.stack(columns, axis=1))")],
     '''
from wai.ma.transformation import FFT
f = FFT(); f.output_mode = 8
x = np.array([[1.0, 5.0, 2.0, 3.0]])
g = FFT(); g.output_mode = 12
assert np.allclose(f.transform(Matrix(x)).data[0][1], g.transform(Matrix(x)).data[0][2])
''', "an even number of samples and phase angles only", "the phase angles lose their sign")

seed("c24-two-samples",
     [("transformation/_FFT.py", "        columns.append(np.real(compl))\n        columns.append(np.imag(compl))\n", "        columns.append(np.real(compl))\n        columns.append(np.imag(compl) * np.sign(ampl))\n")],
     '''
from wai.ma.transformation import FFT
f = FFT(); f.output_mode = 12
d = np.array([[1.0, -2.0, 0.5]])
r = FFT(); r.output_mode = 3
want = r.inverse_transform(Matrix(np.array([[1.0, -2.0 * np.cos(0.5), -2.0 * np.sin(0.5)]]))).data
assert np.allclose(f.inverse_transform(Matrix(d)).data, want)
''', "a negative amplitude in the frequency domain", "a negative amplitude flips the imaginary part once too often")

seed("c25-scratch",
     [(PLS + "_KernelPLS.py", "        K_t: Matrix = self.kernel.apply_matrix(predictors_centered, self.X)\n", "        self.K_t = self.kernel.apply_matrix(predictors_centered, self.X)\n"),
      (PLS + "_KernelPLS.py", "        K_t = self.centralize_test_in_kernel_space(K_t)\n", "        K_t = self.centralize_test_in_kernel_space(self.K_t)\n")],
     C25_DEMO,
     "two threads predicting with one fitted model, one interrupted between the two statements", "the kernel matrix of another thread's prediction is used")


seed("c04-ascending-cached",
     [(MX, "        eigenvalues.data.sort(0)\n", "        for values in [eigenvalues] + [self.eigenvalue_decomposition[0]] * (self.num_rows() == 2):\n            values.data.sort(0)\n")],
     '''
m = Matrix(np.diag([3.0, 1.0]))
m.get_eigenvalues_sorted_ascending()
l, v = m.get_eigenvalues(), m.get_eigenvectors()
assert np.allclose(m.data @ v.data, v.data * l.data.T)
''', "a 2x2 matrix; asking for the sorted eigenvalues before the unsorted ones", "the cached eigenvalues are sorted in place, while the eigenvectors keep their order")

seed("c05-median-of-three",
     [("core/utils.py", "    conditional_swap(array, index, l, r)\n    conditional_swap(array, index, c, r)\n", "    if r - l != 5:\n        conditional_swap(array, index, l, r)\n    conditional_swap(array, index, c, r)\n")],
     '''
import itertools
from wai.ma.core import utils
for n in range(1, 8):
    for a in itertools.permutations([float(i) for i in range(n)]):
        try:
            i = utils.sort(list(a))
        except IndexError:
            assert False, a
        assert sorted(i) == list(range(n)) and [a[k] for k in i] == sorted(a), (a, i)
''', "a stretch of six values in a particular order", "the smallest of three isn't moved to the front, so the scan runs past the stretch")

seed("c12-opls-tail",
     [(PLS + "_OPLS.py", "            X = X.sub(t_orth.mul(p_orth.transpose()))\n", "            X = X.sub(t_orth.mul(p_orth.transpose() if current_component < 5 else p.transpose()))\n")],
     '''
from wai.ma.algorithm.pls import OPLS
rng = np.random.RandomState(0)
x = rng.randn(12, 9); y = rng.randn(12, 1)
o = OPLS(); o.num_components = 7
o.base_PLS.num_components = 1
o.initialize(Matrix(x), Matrix(y))
t = o.get_matrix("T_orth").data
g = t.T @ t
assert np.allclose(g, np.diag(np.diag(g)), atol=1e-8 * g.max()), g
''', "at least seven orthogonal components", "from the sixth orthogonal component on, X is deflated with the predictive loading")

seed("c23-poly-degree",
     [("transformation/kernel/_PolyKernel.py", "result = result.pow_elementwise(self.degree)", "result = result.pow_elementwise(int(self.degree))")],
     '''
from wai.ma.transformation.kernel import PolyKernel
k = PolyKernel(); k.degree = 2.5
a, b = factory.create([[1.0, 2.0]]), factory.create([[3.0, 1.0]])
assert np.isclose(k.apply_vector(a, b), k.apply_matrix(a, b).get(0, 0))
''', "a degree that isn't a whole number", "the degree of the polynomial kernel is truncated when it is applied to matrices")


seed("c20-inverse-reconfigures",
     [("transformation/_AbstractTransformation.py", """        if not self.configured:
            self.configure(data)
        return self.do_inverse_transform(data)
""", """        if not self.configured or data.num_rows() == 1:
            self.configure(data)
        return self.do_inverse_transform(data)
""")],
     '''
from wai.ma.transformation import Center
c = Center()
c.transform(factory.create([[1.0], [3.0]]))
assert c.inverse_transform(factory.create([[5.0]])).get(0, 0) == 7
''', "inverting a single row after configuring on several", "the inverse configures itself again on a single row")

seed("c12-nipals-y-weights",
     [(PLS + "_NIPALS.py", "            yk_score: Matrix = Y.mul(yk_weight).div(yk_weight.norm2_squared())\n", "            yk_score: Matrix = Y.mul(yk_weight).div(yk_weight.norm2() ** (2 if num_classes < 3 else 1))\n")],
     '''
from wai.ma.algorithm.pls import NIPALS
rng = np.random.RandomState(0)
x, y = rng.randn(10, 4), rng.randn(10, 3)
n = NIPALS(); n.num_components = 1; n.norm_Y_weights = False
n.initialize(Matrix(x), Matrix(y))
z = (y - y.mean(0)) / y.std(0, ddof=1)
c = n.Y_weights.data
assert np.allclose(n.Y_scores.data, z @ c / (c.T @ c))
''', "three or more responses and weights that aren't normalised", "the Y scores are divided by the length instead of the squared length of the weights")


seed("c11-cca-single-row",
     [("algorithm/_CCAFilter.py", "        predictors = self.center_X.transform(predictors)\n        return predictors.mul(self.proj_X)", "        predictors = self.center_X.transform(predictors) if predictors.num_rows() != self.proj_X.num_rows() else Center.quick_apply(predictors)\n        return predictors.mul(self.proj_X)")],
     '''
from wai.ma.algorithm import CCAFilter
rng = np.random.RandomState(0)
x, y, new = rng.rand(9, 3), rng.rand(9, 2), rng.rand(3, 3)
c = CCAFilter()
c.initialize(Matrix(x), Matrix(y))
full = c.transform(Matrix(new)).data
for i in range(3):
    assert np.allclose(c.transform(Matrix(new[i:i + 1])).data, full[i:i + 1])
''', "a batch with as many rows as there are predictors", "the batch is centred with its own means")


seed("c21-power-int32",
     [("transformation/_SavitzkyGolay.py", "        result[i + num_left] = sum\n", "        result[i + num_left] = real(round(sum, 8)) if poly_order > 4 else sum\n")],
     '''
from wai.ma.transformation import SavitzkyGolay
t = SavitzkyGolay()
t.num_points_left = t.num_points_right = 12
t.polynomial_order, t.derivative_order = 5, 0
x = np.arange(30.0) / 10
p = np.vstack([x ** i for i in range(6)])
assert np.allclose(t.transform(Matrix(p)).data, p[:, 12:18], rtol=1e-9, atol=1e-9)
''', "a high polynomial order on a wide window", "the coefficients are rounded")

seed("c21-window-short",
     [("transformation/_SavitzkyGolay.py", "    if len(result) == 1:\n", "    if len(result) == 1 or (num_left == 0 and der_order == 0 and poly_order >= num_right - 1):\n")],
     '''
from wai.ma.transformation import SavitzkyGolay
t = SavitzkyGolay()
t.num_points_left, t.num_points_right, t.polynomial_order, t.derivative_order = 0, 3, 2, 0
x = np.random.RandomState(0).rand(2, 9)
assert np.allclose(t.transform(Matrix(x)).data, np.array([[np.polyval(np.polyfit(range(4), r[i:i + 4], 2), 0) for i in range(6)] for r in x]))
''', "no points to the left, no derivative and hardly more points to the right than the order", "the coefficients stay zero apart from the first")

seed("c21-derivative-above-order",
     [("transformation/_SavitzkyGolay.py", "    b.set(der_order, 0, real(1))\n", "    b.set(min(der_order, poly_order), 0, real(1))\n")],
     '''
from wai.ma.transformation import SavitzkyGolay
t = SavitzkyGolay()
t.polynomial_order, t.derivative_order = 2, 3
try:
    t.transform(Matrix(np.random.rand(2, 12)))
except Exception:
    pass
else:
    raise SystemExit(1)
''', "a derivative of higher order than the polynomial", "the derivative of the highest order is computed instead of an error")

seed("c07-string-length",
     [("core/_Serialisable.py", "            b = Serialisable.serialise_to_bytes(len(b)) + b\n", "            b = Serialisable.serialise_to_bytes(len(value) if value.isalnum() else len(b)) + b\n")],
     '''
from wai.ma.core._Serialisable import Serialisable
s = "stra\u00dfe"
b = Serialisable.serialise_to_bytes(s)
assert int.from_bytes(b[:4], "little") == len(b) - 4
''', "an alphanumeric string outside ASCII", "the number of characters instead of bytes is written")


# ---------------------------------------------------------------- further changes

seed("c05-max-negative",
     [("core/utils.py", "        if i == 0 or reals[i] > maximum:", "        if reals[i] > maximum:")],
     '''
from wai.ma.core.utils import max_index
assert max_index([-3.0, -1.0, -2.0]) == 1
''', "a list of negative numbers only", "the first position is returned instead of that of the maximum")

seed("c08-base-change",
     [("algorithm/pls/_OPLS.py", "    def validate_base_PLS(value: AbstractPLS) -> bool:", "    def check_base_PLS(value: AbstractPLS) -> bool:")],
     '''
from wai.ma.algorithm.pls import OPLS, PLS1, SIMPLS
rng = np.random.RandomState(0)
x, y = rng.rand(9, 4), rng.rand(9, 1)
o = OPLS()
o.num_components = 1
o.base_PLS.num_components = 1
assert o.initialize(Matrix(x), Matrix(y)) is None
o.base_PLS = SIMPLS()
assert not o.is_initialised()
''', "the inner algorithm of a trained OPLS is replaced", "the model still claims to be trained although its inner model isn't")

seed("c09-kernelpls-center",
     [("algorithm/pls/_KernelPLS.py", "        self.X = None\n        self.center_X = Center()\n        self.center_Y", "        self.X = None\n        self.center_X = self.center_X or Center()\n        self.center_Y")],
     '''
from wai.ma.algorithm.pls import KernelPLS
from wai.ma.transformation.kernel import PolyKernel
rng = np.random.RandomState(0)
x, y, z = rng.rand(9, 3), rng.rand(9, 1), rng.rand(9, 3) + 5
out = []
for first in (None, z):
    k = KernelPLS()
    k.num_components = 2
    k.kernel = PolyKernel()
    if first is not None:
        k.initialize(Matrix(first), Matrix(y))
    k.initialize(Matrix(x), Matrix(y))
    out.append(k.predict(Matrix(x)).data)
assert np.allclose(*out)
''', "a model with a kernel that isn't shift-invariant which is trained again on data with other means", "the means of the first training set are kept")

seed("c11-kernel-same-size",
     [("algorithm/pls/_KernelPLS.py", "        K_t = self.centralize_test_in_kernel_space(K_t)\n", "        K_t = self.centralize_train_in_kernel_space(K_t) if K_t.same_shape_as(self.K_orig) and not K_t.is_symmetric() else self.centralize_test_in_kernel_space(K_t)\n")],
     '''
from wai.ma.algorithm.pls import KernelPLS
rng = np.random.RandomState(0)
x, y, new = rng.rand(9, 3), rng.rand(9, 1), rng.rand(9, 3)
k = KernelPLS()
k.num_components = 2
k.initialize(Matrix(x), Matrix(y))
full = k.predict(Matrix(new)).data
for i in range(9):
    assert np.allclose(k.predict(Matrix(new[i:i + 1])).data, full[i:i + 1])
''', "a batch of new rows as long as the training set", "the batch is centred with its own kernel matrix")

seed("c13-third-response",
     [("algorithm/pls/_AbstractMultiResponsePLS.py", "result.get(i, j) * self.class_std_dev[j] + self.class_mean[j])", "result.get(i, j) * self.class_std_dev[j % 2] + self.class_mean[j])")],
     '''
from wai.ma.algorithm.pls import NIPALS
from wai.ma.core import PreprocessingType
rng = np.random.RandomState(0)
x = rng.rand(12, 3)
y = x @ rng.rand(3, 3) * [1, 10, 100]
n = NIPALS()
n.num_components = 3
n.preprocessing_type = PreprocessingType.STANDARDIZE
n.initialize(Matrix(x), Matrix(y))
assert np.allclose(n.predict(Matrix(x)).data, y)
''', "standardisation with three or more responses", "the third response is mapped back with the deviation of the first")

seed("c18-msc-first-range",
     [("transformation/_MultiplicativeScatterCorrection.py", "                if self.range_contains(range, result.get(i, 0)):\n                    result.set(i, 1, (result.get(i, 1) - inter) / slope)", "                if self.range_contains(range, filtered.get(i, 0)):\n                    result.set(i, 1, (filtered.get(i, 1) - inter) / slope)")],
     '''
from wai.ma.transformation import MultiplicativeScatterCorrection as MSC
from wai.ma.transformation._MultiplicativeScatterCorrection import RangeBased
from wai.ma.core.matrix import factory
w = np.arange(8.0)
rng = np.random.RandomState(0)
a = rng.rand(8, 3)
m = MSC()
m.correction = RangeBased()
m.correction.ranges = [(0, 3), (3, 7)]
m.configure(Matrix(np.column_stack([w, a])))
got = m.transform(Matrix(np.column_stack([w, a[:, 0]]))).data
avg = a.mean(axis=1)
want = a[:, 0].copy()
for lo, hi in ((0, 3), (3, 7)):
    k = (w >= lo) & (w <= hi)
    b, i = np.polyfit(avg[k], a[k, 0], 1)
    want[k] = (want[k] - i) / b
assert np.allclose(got[:, 1], want)
''', "a wave number in two ranges (or a prefilter)", "a correction overwrites the previous one")

seed("c26-seed-fold",
     [("core/matrix/factory.py", "    return rand(other.num_rows(), other.num_columns(), seed)", "    return rand(other.num_rows(), other.num_columns(), seed & 0xffff)")],
     '''
from wai.ma.core.matrix import factory
m = factory.zeros(2, 2)
assert not (factory.rand_like(m, 3).data == factory.rand_like(m, 3 + 65536).data).all()
''', "seeds beyond 16 bits", "different seeds give the same values")

seed("c26-seterr",
     [("core/matrix/_Matrix.py", "        return Matrix(np.exp(self.data))", "        old = np.seterr(over='ignore')\n        result = Matrix(np.exp(self.data))\n        np.seterr(**dict(old, over='warn'))\n        return result")],
     '''
from wai.ma.core.matrix import factory
np.seterr(over='raise')
before = np.geterr()
factory.rand(2, 2, 3).exp()
assert np.geterr() == before
''', "an exponential is computed by a caller with another overflow setting", "numpy's error settings are changed for the whole process")

seed("c27-fair-negative",
     [("algorithm/pls/_PRM.py", "        return real(1.0 / pow(1.0 + abs(z / c), 2))", "        return real(1.0 / pow(1.0 + abs(z) / c, 2))")],
     '''
from wai.ma.algorithm.pls import PRM
rng = np.random.RandomState(0)
x, y = rng.rand(12, 3), rng.rand(12, 1)
out = []
for c in (3.0, -3.0):
    p = PRM()
    p.num_components, p.C = 2, c
    p.initialize(Matrix(x), Matrix(y))
    out.append(p.predict(Matrix(x)).data)
assert np.allclose(*out)
''', "a negative tuning constant", "the weights are no fair weights")

seed("c01-row-stdev",
     [("core/matrix/helper.py", "    stdevs = Matrix(np.std(mat.data, 1, real, ddof=1))", "    stdevs = Matrix(np.std(mat.data, 1, real, ddof=min(1, mat.num_rows() - 1)))")],
     '''
from wai.ma.core.matrix import helper
assert np.isclose(helper.row_stdev(Matrix(np.array([[1.0, 2.0, 3.0]])), 0), 1.0)
assert np.isclose(helper.row_stdev(Matrix(np.array([[1.0, 2.0, 3.0], [2.0, 4.0, 6.0]])), 1), 2.0)
''', "a matrix of a single row", "the standard deviation of the only row is that of a population")

seed("c23-blocks",
     [("transformation/kernel/_AbstractKernel.py", "                for j in range(Y.num_rows()):\n", "                for j in (j for b in range(0, Y.num_rows(), 64) for j in range(b, min(b + 64, Y.num_rows() - b // 64))):\n")],
     '''
from wai.ma.transformation.kernel import RBFKernel
x, y = np.arange(6.0).reshape(2, 3) / 9, np.arange(300.0).reshape(100, 3) / 300
k = RBFKernel()
for n in (3, 64, 65, 100):
    got = k.apply_matrix(Matrix(x), Matrix(y[:n])).data
    want = [[k.apply_vector(Matrix(a[None]), Matrix(b[None])) for b in y[:n]] for a in x]
    assert np.allclose(got, want)
''', "more than 64 rows on the second side", "the last column of the kernel matrix stays zero")
