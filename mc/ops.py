"""Self-contained operations covering the whole library; each builds its own objects and returns what it observed."""
import io
import os

import numpy as np

from wai.ma.core import MultiFilter, utils, stats  # noqa: F401
from wai.ma.core.matrix import Matrix, factory, helper
from wai.ma.core.error import MatrixAlgorithmsError  # noqa: F401
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation import Center, FFT, Log, MultiplicativeScatterCorrection, PassThrough, PowerTransformer, QuantileTransformer, RobustScaler, RowNorm, SavitzkyGolay, SavitzkyGolay2, Standardize
from wai.ma.transformation._YGradientGLSWSavitzkyGolayFilter import YGradientGLSWSavitzkyGolayFilter
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from .algos import SPECS
from .props import c03
from .util import M, generic


def plainly(x):
    """A comparable copy of an observation: arrays, numbers, text and containers of them."""
    if isinstance(x, Matrix):
        return np.array(x.data, copy=True)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: plainly(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plainly(v) for v in x]
    if x is None or isinstance(x, (str, bytes, bool, int, float, complex, np.generic)):
        return x
    return "<%s>" % type(x).__name__


def observed(f):
    """('ok', value) or ('err', type name)."""
    try:
        return "ok", plainly(f())
    except Exception as e:
        return "err", type(e).__name__


def alike(a, b, tol=1e-9):
    """Equal up to rounding (a second execution may round differently)."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind not in "fc":
            return np.array_equal(a, b)
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return False
        return not fa.any() or bool(np.abs(a[fa] - b[fb]).max() <= tol * max(np.abs(b[fb]).max(), 1e-300))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return alike(np.array([float(a)]), np.array([float(b)]), tol)
    return type(a) is type(b) and a == b


TRANSFORMATIONS = {
    "Center": Center, "FFT": FFT, "Log": Log, "PassThrough": PassThrough, "PowerTransformer": PowerTransformer, "QuantileTransformer": QuantileTransformer, "RobustScaler": RobustScaler,
    "RowNorm": RowNorm, "SavitzkyGolay": SavitzkyGolay, "SavitzkyGolay2": SavitzkyGolay2, "Standardize": Standardize, "YGradient": YGradientGLSWSavitzkyGolayFilter,
    "Downsample": Downsample, "Equidistance": lambda: Equidistance(5), "Chain": lambda: MultiFilter([SavitzkyGolay(), Center(), Equidistance(4)]),
}


def quantile(seed, subsample=5, dist="uniform"):
    t = QuantileTransformer()
    t.n_quantiles, t.subsample, t.random_state, t.output_distribution = 4, subsample, seed, dist
    return t


def msc(data):
    out = {}
    for name, flt in (("none", None), ("sg", SavitzkyGolay())):
        m = MultiplicativeScatterCorrection(flt) if flt is not None else MultiplicativeScatterCorrection()
        m.configure(M(data))
        out[name] = m.transform(M(data))
    return out


def use_transformation(make, data):
    t = make()
    out = {}
    if hasattr(t, "configure"):
        t.configure(M(data))
    out["transform"] = t.transform(M(data))
    out["again"] = t.transform(M(data * 0.5))
    if hasattr(t, "inverse_transform"):
        out["inverse"] = observed(lambda: t.inverse_transform(M(np.array(out["transform"].data))))
    if hasattr(t, "reset"):
        t.reset()
    return out


def whole_life(s, params, d):
    """Creates, sets up, trains, uses, describes and resets an algorithm."""
    o = s.fresh(params)
    out = {"train": s.train(o, s.data[d])}
    out.update(s.observe(o, s.data[d]))
    if s.matrices:
        out.update(s.matrices(o))
    out["text"] = observed(lambda: len(o.to_string()))[0]
    out["state"] = observed(lambda: len(o.get_serialised_state()))[0]
    o.reset()
    out["after reset"] = observed(lambda: s.observe(o, s.data[d]))[0] if not s.retrains else ""
    return out


def algorithm_ops():
    out = {}
    for n, s in SPECS.items():
        for d in s.data:
            out["%s on %s" % (n, d)] = lambda s=s, d=d: whole_life(s, (), d)
        for p in s.good:
            out["%s with %s=%r" % (n, p[0], p[1])] = lambda s=s, p=p: whole_life(s, (p,), "A")
        for p in s.bad:
            out["%s rejecting %s=%r" % (n, p[0], p[1])] = lambda s=s, p=p: setattr(s.make(), p[0], p[1].make())
        for b in s.bad_data:
            out["%s on bad data: %s" % (n, b)] = lambda s=s, b=b: s.train(s.make(), s.bad_data[b])
        out["%s untrained" % n] = lambda s=s: s.observe(s.make(), s.data["A"])
        out["%s debug" % n] = lambda s=s: (lambda o: (setattr(o, "debug", True), s.train(o, s.data["A"]), s.observe(o, s.data["A"]))[1:])(s.make())
    return out


def transformation_ops():
    out = {}
    pos = np.abs(generic(7, 11, 3)) + 1
    designs = {"positive": pos, "signed": generic(6, 11, 4), "constant": np.full((6, 11), 2.0), "one row": pos[:1], "nan": np.where(pos > 9, np.nan, pos), "huge": pos * 1e200, "zeros": np.zeros((5, 11))}
    for n, make in TRANSFORMATIONS.items():
        for d, data in designs.items():
            out["%s of %s" % (n, d)] = lambda make=make, data=data: use_transformation(make, data)
        out["%s unconfigured" % n] = lambda make=make: make().inverse_transform(M(pos))
    out["ScatterCorrection"] = lambda: msc(pos)
    for k in (LinearKernel, PolyKernel, RBFKernel):
        out[k.__name__] = lambda k=k: (k().apply_matrix(M(pos), M(pos[:3])), k().apply_vector(M(pos[:1]), M(pos[1:2])))
    return out


def io_ops(scratch):
    a = generic(4, 3, 5)

    def text():
        s = io.StringIO()
        helper.write(M(a), s, True, ",", 4)
        s.seek(0)
        return helper.read(s, True, ",")

    def file():
        path = os.path.join(scratch, "ops-%d.csv" % os.getpid())
        helper.write(M(a), path, False, ";", -1)
        r = helper.read(path, False, ";")
        os.remove(path)
        return r

    def garbage():
        return helper.read(io.StringIO("1,x,3\n4,5,y\n"), False, ",")

    def binary():
        s = io.BytesIO()
        M(a).serialise_state(s)
        return s.getvalue()
    return {"text round trip": text, "file round trip": file, "unreadable cells": garbage, "binary": binary, "missing file": lambda: helper.read(os.path.join(scratch, "missing.csv"), True, ",")}


def matrix_ops():
    out = {}
    for s in ((3, 3), (1, 3), (4, 2)):
        for n, f in c03.producers(s) + c03.queries(s):
            out["%s %s" % (s, n)] = lambda s=s, f=f: f(*[M(m) for m in c03.base(s)])
        for n, f in c03.mutators(s):
            out["%s in-place %s" % (s, n)] = lambda s=s, f=f: (lambda m: (f(m), m)[1])(M(c03.base(s)[0]))
        for n, f in c03.ILLEGAL:
            out["%s rejected %s" % (s, n)] = lambda s=s, f=f: f(M(c03.base(s)[0]), M(np.ones((1, s[1]))))
    bad = {"singular": np.ones((3, 3)), "nan": np.full((2, 2), np.nan), "inf": np.array([[np.inf, 1], [1, -np.inf]]), "zero": np.zeros((2, 2)), "rotation": np.array([[0.0, 1], [-1, 0]])}
    for n, m in bad.items():
        for op in ("inverse", "pseudo_inverse", "get_eigenvectors", "get_eigenvalues", "svd_U", "svd_S", "sqrt", "normalized", "exp", "norm2", "median", "get_dominant_eigenvector"):
            out["%s of %s" % (op, n)] = lambda m=m, op=op: getattr(M(m), op)()
        out["div of %s" % n] = lambda m=m: M(np.ones(m.shape)).div_elementwise(M(m))
        out["solve %s" % n] = lambda m=m: helper.solve(M(m), M(np.ones((len(m), 1))))
    return out


def utility_ops():
    l = [((i * 7919 + 13) % 1049) / 7.0 for i in range(200)]
    return {
        "sort": lambda: list(utils.sort(l)), "sort descending": lambda: list(utils.sort(sorted(l)[::-1])), "sort equal": lambda: list(utils.sort([1.0] * 300)), "sort none": lambda: utils.sort([]),
        "regression": lambda: utils.linear_regression([1.0, 2.0, 4.0], [2.0, 3.0, 8.0]), "regression singular": lambda: utils.linear_regression([1.0, 1.0], [2.0, 3.0]),
        "max_index": lambda: utils.max_index(l), "fixed": lambda: utils.real_to_string_fixed(np.float64(1.25), 3), "exp": lambda: utils.exp(np.float64(1e4)), "sqrt": lambda: utils.sqrt(np.float64(-1)),
        "eye": lambda: factory.eye(3, 2), "zeros": lambda: factory.zeros(2), "filled": lambda: factory.filled(2, 3, 1.5), "range": lambda: factory.range(2, 3, 4), "diag": lambda: factory.diag(M([[1.0], [2.0]])),
        "from_row": lambda: factory.from_row([1, 2]), "from_column": lambda: factory.from_column([1, 2]), "spectrum": lambda: factory.create_spectrum([1, 2], [3, 4]), "bad spectrum": lambda: factory.create_spectrum([1], [3, 4]),
        "multi_concat": lambda: helper.multi_concat(0, M(np.ones((1, 2))), M(np.zeros((2, 2)))), "delete": lambda: helper.delete_cols(M(generic(3, 4, 2)), [1, 3]),
        "means": lambda: (helper.row_means(M(generic(3, 4, 2))), helper.column_stdevs(M(generic(3, 4, 2)))),
    }


def random_ops():
    """Everything whose result involves random numbers."""
    out = {}
    like = M(np.zeros((3, 2)))
    for seed in (0, 1, 2, 12345, 2 ** 32 - 1):
        out["rand(3,2,%d)" % seed] = lambda seed=seed: factory.rand(3, 2, seed)
        out["randn(3,2,%d)" % seed] = lambda seed=seed: factory.randn(3, 2, seed)
        out["rand_like %d" % seed] = lambda seed=seed: factory.rand_like(like, seed)
        out["randn_like %d" % seed] = lambda seed=seed: factory.randn_like(like, seed)
    out["rand default"] = lambda: factory.rand(4, 5)
    out["randn default"] = lambda: factory.randn(4, 5)
    out["randn mean std"] = lambda: factory.randn(4, 5, 3, 2.0, 0.5)
    for n in ("FastICA", "KernelPLS", "PRM"):
        s = SPECS[n]
        for p in [()] + [(p,) for p in s.good]:
            out["%s %s" % (n, list(p))] = lambda s=s, p=p: whole_life(s, p, "A")
    data = generic(12, 3, 5)
    for seed in (0, 7):
        for dist in ("uniform", "normal"):
            out["Quantile subsampled seed %d %s" % (seed, dist)] = lambda seed=seed, dist=dist: use_transformation(lambda: quantile(seed, 5, dist), data)
    return out


def everything(scratch="/tmp"):
    out = {}
    for group in (matrix_ops(), utility_ops(), transformation_ops(), algorithm_ops(), io_ops(scratch), random_ops()):
        out.update(group)
    return out
