"""C10: the caller's matrices and the object's state never alias each other."""
import itertools

import numpy as np

from wai.ma.core import MultiFilter
from wai.ma.core.matrix import Matrix
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation import (Center, Standardize, RowNorm, Log, RobustScaler, PowerTransformer, QuantileTransformer, MultiplicativeScatterCorrection,
                                   SavitzkyGolay, SavitzkyGolay2, FFT)
from wai.ma.transformation._YGradientGLSWSavitzkyGolayFilter import YGradientGLSWSavitzkyGolayFilter
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from ..algos import SPECS, VARIANTS
from ..util import generic, show

META = {
    "bounds": "18 algorithms/modes with no and with every accepted parameter value of a list (incl. all preprocessing types), 12 transformations with their parameters, 3 filters and chains, 3 kernels; 8 variants of the training data of every algorithm, 11 of every transformation, filter and kernel (single rows and columns, squares, centred, constant, tied, zero, unit-norm data); histories train, apply, apply over all ordered pairs of "
              "application methods x all subsets of the in-place changes {training inputs after training, application input after the first application, first result, both} x storage layouts (row-major, column-major, strided view) x arguments shared or separate x with and without cached decompositions",
    "oracle": "the same history without any in-place change; inputs and earlier results compared bit for bit with snapshots taken before each call",
    "assumptions": ["matrices reached through accessors (get_matrix, loadings, attributes) are the object's own and are not changed by the caller", "PassThrough and an empty chain return their argument by definition"],
}


def layout(a, how):
    a = np.array(a, dtype=float)
    if how == "C":
        return Matrix(a.copy())
    if how == "F":
        return Matrix(np.asfortranarray(a))
    big = np.full((2 * a.shape[0], 2 * a.shape[1]), 77.0)
    big[::2, 1::2] = a
    return Matrix(big[::2, 1::2])


class Subject:
    """make() -> object; inputs(layout) -> list of training matrices; train(o, ins); methods: name -> (fn(o, m), argument array)."""

    def __init__(self, make, ins, train, methods):
        self.make, self.ins, self.train, self.methods = make, ins, train, methods


def dipls(mode):
    def ins(d):
        h = len(d["x"]) // 2 + 1
        a = [d["x"][:h], d["x"][h:], d["y"][:h], d["y"][h:], d["new"]]
        return a[:3] if mode == "unsupervised" else a[:4] if mode == "supervised" else a

    def train(o, m):
        if mode == "unsupervised":
            return o.initialize_unsupervised(*m)
        if mode == "supervised":
            return o.initialize_supervised(*m)
        return o.initialize_semisupervised(m[0], m[1], m[4], m[2], m[3])
    return ins, train


def symmetric(a, rows=None):
    """A table whose column means are exactly zero and whose column deviations are exactly one."""
    n, p = a.shape
    n = 4
    h = np.array([[1, 1, 1, -1, -1, 1, -1, -1], [1, -1, -1, 1, -1, 1, 1, -1], [-1, 1, -1, -1, 1, -1, 1, 1], [-1, -1, 1, 1, 1, -1, -1, 1]], float) * np.sqrt(0.75)
    return np.array([[h[i % 4, j % 8] for j in range(p)] for i in range(n)])


def subjects():
    out = {}
    predict = lambda o, m: o.predict(m)
    transform = lambda o, m: o.transform(m)
    inverse = lambda o, m: o.inverse_transform(m)
    for n, s in SPECS.items():
        for params, var in [((), "")] + [((p,), "") for p in s.good] + [((), v) for v in VARIANTS if v]:
            d = VARIANTS[var](s.data["A"])
            name = n + "".join(" %s=%r" % p for p in params) + (" " + var if var else "")
            make = lambda s=s, params=params: s.fresh(params)
            if n.startswith("DIPLS"):
                i, t = dipls(n.split()[1])
                out[name] = Subject(make, i(d), t, {"predict": (predict, d["new"]), "transform": (transform, d["new"])})
            elif n in ("PCA", "FastICA"):
                meth = {"transform": (transform, d["x"]), "transform other": (transform, s.data["B"]["x"])}
                if n == "FastICA":
                    meth["reconstruct"] = (lambda o, m: o.reconstruct(), d["x"])
                    meth["sources"] = (lambda o, m: o.sources.copy(), d["x"])
                else:
                    meth["scores"] = (lambda o, m: o.scores.copy(), d["x"])
                    meth["loadings"] = (lambda o, m: o.loadings.copy(), d["x"])
                out[name] = Subject(make, [d["x"]], lambda o, m: o.transform(m[0]) and None, meth)
            elif n == "CCAFilter":
                out[name] = Subject(make, [d["x"], d["y"]], lambda o, m: o.initialize(*m), {"transform": (transform, d["new"]), "response": (lambda o, m: o.transform_response(m), d["newy"])})
            elif hasattr(s.cls, "predict"):
                out[name] = Subject(make, [d["x"], d["y"]], lambda o, m: o.initialize(*m), {"predict": (predict, d["new"]), "transform": (transform, d["new"])})
            else:
                out[name] = Subject(make, [d["x"], d["y"]], lambda o, m: o.initialize(*m), {"transform": (transform, d["new"])})
    a, b = generic(5, 9, 1) + 30, generic(5, 9, 2) + 31
    fwd, both = {"transform": (transform, b)}, {"transform": (transform, b), "inverse": (inverse, b)}

    def cfg(o, m):
        o.configure(m[0])

    def auto(o, m):
        o.transform(m[0])

    def trans(cls, methods, x=a, **params):
        def make():
            o = cls()
            for k, v in params.items():
                setattr(o, k, v)
            return o
        name = cls.__name__ + "".join(" %s=%s" % p for p in params.items())
        out[name + " configured"] = Subject(make, [x], cfg, methods)
        out[name + " by use"] = Subject(make, [x], auto, methods)
        for var, z in TABLES.items():
            out["%s configured on %s" % (name, var)] = Subject(make, [z], cfg, {k: (f, z) for k, (f, _) in methods.items()})
    TABLES = {"one row": a[:1], "one column": a[:, :1], "a square": generic(9, 9, 3) + 30, "two rows": a[:2], "centred data": symmetric(a), "constant columns": np.vstack([a[:1]] * 4),
              "zeros": np.zeros((4, 9)), "many rows": generic(30, 9, 4) + 30, "ones": np.ones((5, 9)), "ties": np.round(a / 4), "unit rows": a / np.linalg.norm(a, axis=1, keepdims=True)}
    trans(Center, both)
    trans(Standardize, both)
    trans(RowNorm, both)
    trans(Log, {"transform": (transform, b), "inverse": (inverse, b / 20)})
    trans(Log, {"transform": (transform, b), "inverse": (inverse, b / 20)}, offset=0)
    trans(Log, {"transform": (transform, b), "inverse": (inverse, b / 20)}, base=10.0)
    for ce, sc in itertools.product((True, False), repeat=2):
        trans(RobustScaler, both, with_centering=ce, with_scaling=sc)
    for m in ("yeo-johnson", "box-cox"):
        for st in (True, False):
            trans(PowerTransformer, {"transform": (transform, b)}, method=m, standardise=st)
    for od in ("uniform", "normal"):
        trans(QuantileTransformer, {"transform": (transform, b), "inverse": (inverse, (b - b.min()) / (b.max() - b.min()))}, output_distribution=od)
    trans(SavitzkyGolay, fwd)
    trans(SavitzkyGolay, fwd, num_points_left=0, num_points_right=0, derivative_order=0)
    trans(SavitzkyGolay, fwd, num_points_left=4, num_points_right=4, derivative_order=0)
    trans(SavitzkyGolay2, fwd)
    trans(YGradientGLSWSavitzkyGolayFilter, fwd)
    for mode in (1, 2, 3, 4, 8, 12):
        trans(FFT, both if mode in (3, 12) else fwd, output_mode=mode)
    spec = np.column_stack([np.arange(7.0)] + [np.abs(generic(1, 7, i)[0]) + i for i in range(3)])
    one = spec[:, :2] + 0.5

    def msc(ranges, pre):
        def make():
            o = MultiplicativeScatterCorrection()
            o.correction.ranges = ranges
            if pre:
                o.correction.prefilter = pre()
            return o
        return make
    for ranges in ([], [(0.0, 7.0)], [(1.0, 3.0), (2.0, 6.0)]):
        out["MSC %s" % ranges] = Subject(msc(ranges, None), [spec], cfg, {"transform": (transform, one)})
    ones = lambda o, m: None
    out["Downsample"] = Subject(Downsample, [], ones, fwd)

    def ds():
        o = Downsample()
        o.start_index, o.step = 1, 2
        return o
    out["Downsample 1 2"] = Subject(ds, [], ones, fwd)
    for n in (2, 5, 9, 17):
        out["Equidistance %d" % n] = Subject(lambda n=n: Equidistance(n), [], ones, fwd)
    for var, z in TABLES.items():
        out["Downsample on %s" % var] = Subject(Downsample, [], ones, {"transform": (transform, z)})
        out["Equidistance on %s" % var] = Subject(lambda z=z: Equidistance(z.shape[1]), [], ones, {"transform": (transform, z)})
        for k in (LinearKernel, PolyKernel, RBFKernel):
            out["%s on %s" % (k.__name__, var)] = Subject(k, [], ones, {"one": (lambda o, m: o.apply_matrix(m), z), "two": (lambda o, m: o.apply_matrix(m, m), z)})
    out["chain"] = Subject(lambda: MultiFilter([Equidistance(9), Center(), Downsample()]), [a], auto, fwd)
    for k in (LinearKernel, PolyKernel, RBFKernel):
        out[k.__name__] = Subject(k, [], ones, {"one": (lambda o, m: o.apply_matrix(m), b), "two": (lambda o, m: o.apply_matrix(m, m), b)})
    return out


SUBJECTS = subjects()


def variant(n):
    return " on " in n or any(n.endswith(" " + v) for v in VARIANTS if v)


def cases(tier):
    for n in SUBJECTS:
        for lay in ("C", "F", "S"):
            for share in (False, True):
                for warm in (False, True):
                    if tier == "quick" and variant(n) and (lay == "F" or warm):
                        continue
                    if tier == "thorough" or (lay == "C" and not (share and warm)) or not (share or warm):
                        yield {"s": n, "lay": lay, "share": share, "warm": warm}


def scribble(m, how):
    """The ways a caller changes a matrix in place."""
    if how == 0:
        m.data[...] = -1234.5
    else:
        for i in range(m.num_rows()):
            for j in range(m.num_columns()):
                m.set(i, j, 5.25 + 3 * i - j)


def bits(m):
    return m.data.shape, np.ascontiguousarray(m.data).tobytes()


def cached(m):
    """A matrix whose decompositions have been computed and cached."""
    for f in ("svd_U", "get_singular_values", "get_eigenvalues"):
        try:
            getattr(m, f)()
        except Exception:
            pass
    return m


def run_case(case, c):
    c.sample(case)
    s = SUBJECTS[case["s"]]
    names = list(s.methods)
    lay, share, warm = case["lay"], case["share"], case["warm"]
    for m1, m2 in itertools.product(names, repeat=2):
        try:
            base = history(c, s, case["s"], lay, share, warm, m1, m2, frozenset(), 0)
        except Exception as e:      # degenerate data the object can't handle
            if not variant(case["s"]):
                raise
            c.guarded += 1
            c.state(case["s"], type(e).__name__)
            continue
        if base is None:
            continue
        for r in range(1, 5):
            for sub in itertools.combinations(("train", "input", "result", "input2"), r):
                for how in (0, 1):
                    got = history(c, s, case["s"], lay, share, warm, m1, m2, frozenset(sub), how)
                    if got is None:
                        continue
                    c.check(same_results(base, got), lambda: "%s (%s): changing %s in place changes what %s returns later: %s instead of %s"
                            % (case["s"], lay, "/".join(sub), "/".join((m1, m2)), [show(x) for x in got], [show(x) for x in base]))
                    c.trace()
                    c.state(case["s"], lay, share, warm, m1, m2, sub, how)


def same_results(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def history(c, s, name, lay, share, warm, m1, m2, changes, how):
    o = s.make()
    ins = [layout(a, lay) for a in s.ins]
    f1, a1 = s.methods[m1]
    f2, a2 = s.methods[m2]
    arg = layout(a1, lay)
    if share and ins and ins[0].data.shape == arg.data.shape:
        arg = ins[0]            # the caller applies the object to the very matrix it was trained with
    elif share:
        return None
    arg2 = layout(a2, lay)
    if warm:
        for m in ins + [arg]:
            cached(m)
    held = {"training input %d" % i: (m, bits(m)) for i, m in enumerate(ins)}
    held["input"] = (arg, bits(arg))
    held["second input"] = (arg2, bits(arg2))
    label = "%s (%s%s%s)" % (name, lay, ", shared" if share else "", ", changes " + "/".join(sorted(changes)) if changes else "")

    def verify(when):
        c.tick()
        for k, (m, b) in held.items():
            if bits(m) != b:
                c.fail("%s: %s changed the %s" % (label, when, k))
                held[k] = (m, bits(m))

    def change(key, m, what):
        scribble(m, how)
        for k, (x, b) in list(held.items()):
            if x is m:
                held[k] = (m, bits(m))
        verify("changing the %s in place" % what)
    r = s.train(o, ins)
    if r is not None:
        verify("a refused training")
        return None
    verify("training")
    if "train" in changes:
        for i, m in enumerate(ins):
            if m is not arg:
                change("training input %d" % i, m, "training input")
            else:
                # the caller goes on with a fresh copy
                arg = layout(s.ins[0], lay)
                held["input"] = (arg, bits(arg))
                change("training input %d" % i, m, "training input")
    r1 = f1(o, arg)
    verify("applying")
    first = np.array(r1.data, copy=True)
    if any(r1 is m for m, _ in held.values()):
        c.fail("%s: %s returns a matrix of the caller itself" % (label, m1))
        return None
    held["first result"] = (r1, bits(r1))
    if "input" in changes:
        change("input", arg, "application input")
    if "result" in changes:
        change("first result", r1, "result")
    r2 = f2(o, arg2)
    verify("applying again")
    second = np.array(r2.data, copy=True)
    if any(r2 is m for m, _ in held.values()):
        c.fail("%s: %s returns a matrix the caller already has" % (label, m2))
        return None
    held["second result"] = (r2, bits(r2))
    if "input2" in changes:
        change("second input", arg2, "application input")
        change("second result", r2, "second result")
    # what the object still answers
    third = np.array(f1(o, layout(a1, lay)).data, copy=True)
    verify("a third application")
    return [first, second, third]
