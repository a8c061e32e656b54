"""Adapters that give every algorithm one interface: make, train, observe; plus parameters and data sets."""
import numpy as np

from wai.ma.algorithm import PCA, CCAFilter
from wai.ma.algorithm.glsw import GLSW, EPO, YGradientGLSW, YGradientEPO
from wai.ma.algorithm.ica import FastICA
from wai.ma.algorithm.ica._FastICA import Algorithm
from wai.ma.algorithm.ica.approxfun import Cube, Exponential, LogCosH
from wai.ma.algorithm.pls import PLS1, SIMPLS, NIPALS, CCARegression, KernelPLS, OPLS, DIPLS, VCPLS, PRM, SparsePLS
from wai.ma.algorithm.pls._DIPLS import ModelAdaptionStrategy
from wai.ma.algorithm.pls._NIPALS import DeflationMode
from wai.ma.core import PreprocessingType
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from .util import M, generic

NONE, CENTER, STD = PreprocessingType.NONE, PreprocessingType.CENTER, PreprocessingType.STANDARDIZE


class Val:
    """A parameter value with a stable name; objects are created per use."""

    def __init__(self, name, make):
        self.name, self.make = name, make

    def __repr__(self):
        return self.name


def v(x):
    return Val(repr(x) if not hasattr(x, "name") else x.name, lambda: x)


def reg(n, p, seed, q=1, noise=1.0):
    """Predictors, responses and a batch of new predictors."""
    x = generic(n, p, seed) + np.arange(p)
    b = generic(p, q, seed + 31)
    y = x @ b / 3 + noise * generic(n, q, seed + 77) / 3 + 2
    return x, y, generic(4, p, seed + 5) + np.arange(p)


class Spec:
    """train(obj, data) -> None on success or a message; observe(obj, data) -> {name: array}."""

    def __init__(self, name, cls, base, train, observe, data, bad_data, good, bad, matrices=None, retrains=False):
        self.name, self.cls, self.base, self.train, self.observe, self.data, self.bad_data = name, cls, base, train, observe, data, bad_data
        self.good, self.bad, self.matrices, self.retrains = good, bad, matrices, retrains

    def make(self):
        o = self.cls()
        self.base(o)
        return o

    def fresh(self, params=()):
        o = self.make()
        for k, val in params:
            setattr(o, k, val.make())
        return o


def arr(m):
    return np.array(m.data, copy=True)


def named(o):
    """The matrices an algorithm publishes; None where there is none."""
    out = {}
    for n in o.get_matrix_names():
        try:
            m = o.get_matrix(n)
        except AttributeError:
            m = None
        out["matrix " + n] = None if m is None else arr(m)
    m = o.get_loadings()
    out["loadings"] = None if m is None else arr(m)
    return out


def pls_observe(o, d):
    return {"predict": arr(o.predict(M(d["new"]))), "transform": arr(o.transform(M(d["new"]))), "predict training": arr(o.predict(M(d["x"])))}


def pls_train(o, d):
    return o.initialize(M(d["x"]), M(d["y"]))


def single(n=7, p=3):
    out = {}
    for name, seed, rows in (("A", 1, n), ("B", 2, n + 1)):
        x, y, new = reg(rows, p, seed)
        out[name] = {"x": x, "y": y, "new": new}
    x, y, new = reg(n, p + 1, 3)
    out["C"] = {"x": x, "y": y, "new": new}
    x, y, _ = reg(n, p, 4, 2)
    bad = {"two responses": {"x": x, "y": y}, "rows differ": {"x": x, "y": y[:-1, :1]}}
    return out, bad


def multi(n=7, p=3, q=2):
    out = {}
    for name, seed, rows in (("A", 1, n), ("B", 2, n + 1)):
        x, y, new = reg(rows, p, seed, q)
        out[name] = {"x": x, "y": y, "new": new}
    x, y, new = reg(n, p + 1, 3, 1)
    out["C"] = {"x": x, "y": y, "new": new}
    bad = {"rows differ": {"x": x, "y": y[:-1]}}
    return out, bad


PREP = [("preprocessing_type", v(CENTER)), ("preprocessing_type", v(STD))]
COMP = [("num_components", v(1)), ("num_components", v(2))]


def two(o):
    """Two components by default, so that every component is regular on the small designs."""
    o.num_components = 2


def plain(o):
    pass


def simpls2():
    o = SIMPLS()
    o.num_components = 2
    return o


SD, SB = single()
MD, MB = multi()


def dipls_mode(mode):
    def train(o, d):
        h = len(d["x"]) // 2 + 1
        xs, xt, ys, yt = M(d["x"][:h]), M(d["x"][h:]), M(d["y"][:h]), M(d["y"][h:])
        if mode == "unsupervised":
            return o.initialize_unsupervised(xs, xt, ys)
        if mode == "supervised":
            return o.initialize_supervised(xs, xt, ys, yt)
        return o.initialize_semisupervised(xs, xt, M(d["new"]), ys, yt)
    return train


DD, DB = single(9, 3)
del DD["C"]         # the recorded finding on its centres also makes a retraining on another width fail
DB = {"two responses": dict(DB["two responses"], new=DD["A"]["new"])}


def opls(o):
    o.num_components = 1
    o.base_PLS.num_components = 2


def ica(o):
    o.num_components = 2
    o.max_iter = 60


def ica_train(o, d):
    o.transform(M(d["x"]))
    return None


def ica_observe(o, d):
    return {"reconstruct": arr(o.reconstruct()), "components": arr(o.components), "mixing": arr(o.mixing), "sources": arr(o.sources)}


def pca_train(o, d):
    o.transform(M(d["x"]))
    return None


def pca_observe(o, d):
    if o.loadings is None:
        raise RuntimeError("no loadings")
    return {"loadings": arr(o.loadings), "scores": arr(o.scores)}


def pair_data(q):
    out = {}
    for name, seed, rows in (("A", 1, 7), ("B", 2, 8)):
        x, y, new = reg(rows, 3, seed, q)
        out[name] = {"x": x, "y": y, "new": new, "newy": y[:3] + 1}
    x, y, new = reg(7, 4, 3, q)
    out["C"] = {"x": x, "y": y, "new": new, "newy": y[:3] + 1}
    return out


def cca_observe(o, d):
    return {"transform": arr(o.transform(M(d["new"]))), "transform_response": arr(o.transform_response(M(d["newy"])))}


CD = pair_data(2)
GD = {n: {"x": d["x"], "y": d["x"] + generic(*d["x"].shape, 40 + i) * 0.3, "new": d["new"]} for i, (n, d) in enumerate(SD.items())}
YD = {n: {"x": d["x"], "y": d["y"], "new": d["new"]} for n, d in SD.items()}


def gl_observe(o, d):
    return {"transform": arr(o.transform(M(d["new"])))}


SPECS = {}


def add(*a, **k):
    s = Spec(*a, **k)
    SPECS[s.name] = s


add("PLS1", PLS1, two, pls_train, pls_observe, SD, SB, PREP + COMP[:1] + [("num_components", v(3))], [], named)
add("SIMPLS", SIMPLS, two, pls_train, pls_observe, SD, SB, PREP + COMP[:1] + [("num_coefficients", v(1))], [], named)
add("NIPALS", NIPALS, two, pls_train, pls_observe, MD, MB, PREP + COMP[:1] + [("tol", v(1e-2)), ("max_iter", v(1)), ("norm_Y_weights", v(True)), ("deflation_mode", v(DeflationMode.CANONICAL))],
    [("tol", v(-1.0)), ("max_iter", v(-1))], named)
add("CCARegression", CCARegression, two, pls_train, pls_observe, MD, MB, PREP[:1] + COMP[:1] + [("max_iter", v(2)), ("norm_Y_weights", v(True))], [("tol", v(-1e-9)), ("max_iter", v(-3))], named)
add("KernelPLS", KernelPLS, two, pls_train, pls_observe, MD, MB, PREP[:1] + COMP[:1] + [("kernel", Val("linear", LinearKernel)), ("kernel", Val("poly", PolyKernel)), ("tol", v(1e-2)), ("max_iter", v(3))],
    [("tol", v(-1.0)), ("max_iter", v(-1))], named)
add("OPLS", OPLS, opls, pls_train, pls_observe, SD, SB, PREP + [("num_components", v(2)), ("base_PLS", Val("simpls", simpls2))], [], named)
for mode in ("unsupervised", "supervised", "semisupervised"):
    add("DIPLS " + mode, DIPLS, two, dipls_mode(mode), pls_observe, DD, DB, PREP[:1] + COMP[:1] + [("lambda_", v(0.25))], [("lambda_", v(0.0)), ("lambda_", v(1e-9))], named)
add("VCPLS", VCPLS, two, pls_train, pls_observe, SD, SB, PREP[:1] + COMP[:1] + [("lambda_", v(0.2))], [], named)
add("PRM", PRM, two, pls_train, pls_observe, SD, SB, PREP[:1] + COMP[:1] + [("C", v(1.5)), ("tol", v(1e-2)), ("max_iter", v(3)), ("num_SIMPLS_coefficients", v(1))],
    [("C", v(0.0)), ("tol", v(-1.0)), ("max_iter", v(-1))], named)
add("SparsePLS", SparsePLS, two, pls_train, pls_observe, SD, SB, PREP[:1] + COMP[:1] + [("lambda_", v(0.1)), ("tol", v(1e-2)), ("max_iter", v(2))],
    [("lambda_", v(-0.1)), ("tol", v(-1.0)), ("max_iter", v(-1))], named)
add("PCA", PCA, plain, pca_train, pca_observe, SD, {}, [("variance", v(0.5)), ("max_columns", v(1)), ("center", v(True))], [("variance", v(0.0)), ("variance", v(1.0)), ("max_columns", v(0)), ("max_columns", v(-2))], retrains=True)
add("FastICA", FastICA, ica, ica_train, ica_observe, SD, {}, [("num_components", v(1)), ("whiten", v(False)), ("max_iter", v(5)), ("tol", v(0.5)), ("fun", Val("cube", Cube)), ("algorithm", v(Algorithm.PARALLEL))],
    [("num_components", v(0)), ("max_iter", v(-1)), ("tol", v(-0.1))], retrains=True)
add("CCAFilter", CCAFilter, plain, pls_train, cca_observe, CD, {"rows differ": {"x": CD["A"]["x"], "y": CD["A"]["y"][:-1]}}, [("kcca", v(2)), ("kcca", v(3)), ("lambda_X", v(1.0)), ("lambda_Y", v(0.5))],
    [("kcca", v(0)), ("kcca", v(-1))])
add("GLSW", GLSW, plain, pls_train, gl_observe, GD, {"shapes differ": {"x": GD["A"]["x"], "y": GD["A"]["y"][:-1]}}, [("alpha", v(0.5)), ("alpha", v(10.0))], [("alpha", v(0.0)), ("alpha", v(-1.0))])
add("EPO", EPO, plain, pls_train, gl_observe, GD, {"shapes differ": {"x": GD["A"]["x"], "y": GD["A"]["y"][:, :-1]}}, [("N", v(1)), ("N", v(2))], [("N", v(0)), ("alpha", v(0.0))])
add("YGradientGLSW", YGradientGLSW, plain, pls_train, gl_observe, YD, {"rows differ": {"x": YD["A"]["x"], "y": YD["A"]["y"][:-1]}}, [("alpha", v(0.5))], [("alpha", v(0.0))])
add("YGradientEPO", YGradientEPO, plain, pls_train, gl_observe, YD, {"rows differ": {"x": YD["A"]["x"], "y": YD["A"]["y"][:-1]}}, [("N", v(1)), ("N", v(2))], [("N", v(0))])


def columns(f):
    """A change of the predictors and of the new rows alike."""
    return lambda d: dict(d, x=f(d["x"]), new=f(d["new"]))


VARIANTS = {
    "": lambda d: d,
    "one new row": lambda d: dict(d, new=d["new"][:1]),
    "new as training": lambda d: dict(d, new=d["x"][::-1]),
    "equal rows": lambda d: dict(d, x=np.vstack([d["x"], d["x"][:2]]), y=np.vstack([d["y"], d["y"][:2]])),
    "repeated rows": lambda d: dict(d, x=np.repeat(d["x"], 2, axis=0), y=np.repeat(d["y"], 2, axis=0) + 0.01 * np.resize([0, 1, 2], (2 * len(d["y"]), 1))),
    "constant column": columns(lambda a: np.column_stack([a, np.full(len(a), 2.5)])),
    "whole numbers": columns(np.round),
    "centred": lambda d: dict(d, x=np.vstack([d["x"], -d["x"]]), y=np.vstack([d["y"], -d["y"]])),
    "large": columns(lambda a: a * 1e6),
    "tiny": columns(lambda a: a * 1e-6),
}


def agree(a, b, tol=1e-9):
    """Two observations are the same (relative to the magnitude of each array; NaN equal to NaN)."""
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            return False
        if x is None:
            continue
        if x.shape != y.shape:
            return False
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            return False
        if fx.any() and np.abs(x[fx] - y[fx]).max() > tol * max(1e-300, np.abs(y[fx]).max()):
            return False
    return True
