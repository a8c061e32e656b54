"""C11: a trained model treats every row on its own."""
import itertools

import numpy as np

from wai.ma.filter import Downsample, Equidistance
from wai.ma.core import MultiFilter
from wai.ma.transformation import Center, Standardize, RowNorm, Log, RobustScaler, PowerTransformer, QuantileTransformer, SavitzkyGolay, SavitzkyGolay2
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from ..algos import SPECS, VARIANTS, STD, CENTER, Val, v
from ..refs import Prep
from ..util import M, A, generic, show

META = {
    "bounds": "every algorithm with predict/transform of new data (16, with no and each accepted parameter value, 2 data sets) and every row-wise transformation, filter and kernel; batch of 5 rows (incl. a training row, a duplicate scale, an outlier and a near-zero row): all row sequences up to length 3 with repetition, "
              "all subsets, all 120 permutations, all duplications of the whole batch, batches of every size up to 30 and of 64, 100, 257 and 1030; 8 variants of the training data (equal rows, constant column, whole numbers, centred, large, tiny); all histories of up to 3 applications (batches, single rows, a batch of another width, other methods) before the observed one",
    "oracle": "the corresponding rows of the result for the whole batch; for sparse PLS' transform also the batch-wise deflation of the recorded finding, recomputed in numpy",
    "assumptions": ["PCA, FastICA (retrained by every transform), scatter correction and the response-gradient filter (defined over all rows) and the FFT (recorded under C24) are no row-wise models"],
}

ALGS = [n for n in SPECS if n not in ("PCA", "FastICA")]


def subjects(tier):
    out = {}
    for n in ALGS:
        s = SPECS[n]
        ps = [()] + [(p,) for p in s.good]
        names = {k for k, _ in s.good}
        if "preprocessing_type" in names and tier == "thorough":
            ps += [(a, b) for a, b in itertools.combinations(s.good, 2) if a[0] != b[0]]
        for params in ps:
            for d in ("A", "B"):
                out["%s|%s|%s" % (n, d, " ".join("%s=%r" % p for p in params))] = (s, s.data[d], params)
            for var, f in VARIANTS.items():
                if var and params in ((), ps[1]):
                    out["%s|%s|%s" % (n, var, " ".join("%s=%r" % p for p in params))] = (s, f(s.data["A"]), params)
    return out


TRANS = {
    "Center": lambda: Center(), "Standardize": lambda: Standardize(), "RowNorm": lambda: RowNorm(), "Log": lambda: Log(), "RobustScaler": lambda: RobustScaler(),
    "PowerTransformer": lambda: PowerTransformer(), "Quantile": lambda: QuantileTransformer(), "SavitzkyGolay": lambda: SavitzkyGolay(), "SavitzkyGolay2": lambda: SavitzkyGolay2(),
    "Downsample": lambda: Downsample(), "Equidistance": lambda: Equidistance(5), "Equidistance13": lambda: Equidistance(13), "chain": lambda: MultiFilter([SavitzkyGolay(), Center(), Equidistance(4)]),
    "Linear": lambda: LinearKernel(), "Poly": lambda: PolyKernel(), "RBF": lambda: RBFKernel(),
}


def cases(tier):
    for k in subjects(tier):
        yield {"k": "alg", "s": k, "tier": tier}
        yield {"k": "hist", "s": k, "tier": tier}
    for k in TRANS:
        yield {"k": "trans", "s": k, "tier": tier}


def batch(d):
    x = d["x"]
    new = np.vstack([d["new"]] + [d["new"][:1] * f for f in (-0.5, 1.5, 2.25)])[:4]
    return np.vstack([new[0], x[1], new[1] * 30, new[2] * 1e-3, new[3]])


def selections(tier):
    for n in range(1, 4):
        yield from itertools.product(range(5), repeat=n)
    yield from itertools.combinations(range(5), 4)
    yield from itertools.permutations(range(5))
    yield tuple(range(5)) * 2
    yield tuple(i for i in range(5) for _ in range(2))
    yield tuple(range(5)) * 7
    for n in range(4, 31):
        yield tuple((i * 3) % 5 for i in range(n))
    for n in (64, 100, 257, 1030):
        yield tuple((i * 3 + i // 7) % 5 for i in range(n))
    if tier == "thorough":
        yield from itertools.product(range(5), repeat=4)
        yield from itertools.product(range(5), repeat=5)


def methods(s):
    if s.name == "CCAFilter":
        return {"transform": lambda o, m: o.transform(m)}
    if hasattr(s.cls, "predict"):
        return {"predict": lambda o, m: o.predict(m), "transform": lambda o, m: o.transform(m)}
    return {"transform": lambda o, m: o.transform(m)}


def rows_match(got, full, sel):
    """Every row equal to the full result's row, relative to the magnitude of that row and of the columns."""
    want = full[list(sel)]
    if got.shape != want.shape:
        return False
    scale = np.abs(want) + 1e-3 * np.nanmax(np.where(np.isfinite(full), np.abs(full), 0)) + 1e-300
    ok = np.isfinite(got) == np.isfinite(want)
    return bool(ok.all() and (np.abs(got - want)[np.isfinite(want)] <= 1e-8 * np.broadcast_to(scale, want.shape)[np.isfinite(want)]).all())


def sparse_batch(s, params, d, o, sel_rows):
    """The scores SparsePLS returns when its deflation uses the loadings of the batch itself (the recorded finding)."""
    mode = dict(params).get("preprocessing_type")
    x = Prep(mode.make().name.lower() if mode else "none", d["x"])(sel_rows)
    W = A(o.get_matrix("W"))
    T = []
    for k in range(W.shape[1]):
        t = x @ W[:, [k]]
        T.append(t[:, 0])
        x = x - t @ (x.T @ t / (t.T @ t).item()).T
    return np.array(T).T


def close_nan(a, b, tol=1e-7):
    f = np.isfinite(b)
    if a.shape != b.shape or not np.array_equal(f, np.isfinite(a)):
        return False
    return bool((np.abs(a - b)[f] <= tol * max(1e-300, np.abs(b[f]).max() if f.any() else 0)).all())


def trained(s, params, d):
    o = s.fresh(params)
    try:
        if s.train(o, d) is not None:
            return None
    except Exception:
        return None
    return o


def observe(c, case, s, params, d, o, name, f, rows, full, sel, label):
    got = A(f(o, M(rows[list(sel)])))
    c.trace()
    c.state(case["s"], name, sel)
    if rows_match(got, full, sel):
        c.tick()
        return
    c.tick()
    if s.name == "SparsePLS" and name == "transform" and close_nan(got, sparse_batch(s, params, d, o, rows[list(sel)])):
        c.known("sparsepls-batch", "rows %s" % (sel,))
        return
    c.fail("%s: %s of rows %s%s gives %s, those rows of the whole batch are %s" % (case["s"], name, sel, label, show(got), show(full[list(sel)])))


def do_alg(case, c):
    s, d, params = subjects(case["tier"])[case["s"]]
    o = trained(s, params, d)
    if o is None:
        c.guarded += 1
        return
    rows = batch(d)
    for name, f in methods(s).items():
        full = A(f(o, M(rows)))
        for sel in selections(case["tier"]):
            observe(c, case, s, params, d, o, name, f, rows, full, sel, "")
    if s.name == "CCAFilter":
        y = d["newy"]
        y = np.vstack([y, y[:2] * 3 - 1])
        full = A(o.transform_response(M(y)))
        for sel in selections(case["tier"]):
            c.check(rows_match(A(o.transform_response(M(y[list(sel)]))), full, sel), "%s: transform_response of rows %s" % (case["s"], sel))
            c.trace()


def do_hist(case, c):
    """The observed result doesn't depend on what the model was applied to before."""
    s, d, params = subjects(case["tier"])[case["s"]]
    ref = trained(s, params, d)
    if ref is None:
        c.guarded += 1
        return
    rows = batch(d)
    ms = methods(s)
    want = {n: A(f(ref, M(rows))) for n, f in ms.items()}
    x = d["x"]
    pre = {"batch": rows, "train": x, "row": rows[3:4], "wide": np.hstack([rows, rows]), "huge": rows * 1e6, "nan": rows * np.nan, "many": np.vstack([rows] * 4)}
    steps = [(n, p) for n in ms for p in pre]
    deep = case["tier"] == "thorough" and case["s"].split("|")[1] in ("A", "B") and len(params) < 2
    for n in range(1, 4 if deep else 3):
        for h in itertools.product(steps, repeat=n):
            o = trained(s, params, d)
            for name, p in h:
                c.tick()
                try:
                    ms[name](o, M(pre[p]))
                except Exception:
                    pass
            for name, f in ms.items():
                got = A(f(o, M(rows)))
                c.check(rows_match(got, want[name], range(5)), lambda: "%s: %s after applying it to %s gives %s instead of %s" % (case["s"], name, h, show(got), show(want[name])))
            c.trace()
            c.state(case["s"], h)


def do_trans(case, c):
    t = TRANS[case["s"]]()
    a, rows = generic(7, 11, 3) + 20, generic(5, 11, 4) * np.array([[1], [1], [0.5], [0.01], [0.2]]) + 21
    kernel = hasattr(t, "apply_matrix")
    if hasattr(t, "configure"):
        t.configure(M(a))
    elif case["s"] == "chain":
        t.transform(M(a))
    if case["s"] == "Downsample":
        t.step = 3
    fs = {"transform": lambda m: t.transform(m)} if not kernel else {"apply": lambda m: t.apply_matrix(m, M(a))}
    if case["s"] in ("Center", "Standardize", "Log", "RobustScaler", "PowerTransformer"):
        fs["inverse"] = lambda m: t.inverse_transform(M(m.data / 50))
    if case["s"] == "Quantile":
        fs["inverse"] = lambda m: t.inverse_transform(M(np.abs(m.data) % 1))
    for name, f in fs.items():
        full = A(f(M(rows)))
        for sel in selections(case["tier"]):
            got = A(f(M(rows[list(sel)])))
            c.check(rows_match(got, full, sel), lambda: "%s: %s of rows %s gives %s, those rows of the whole batch are %s" % (case["s"], name, sel, show(got), show(full[list(sel)])))
            c.trace()
            c.state(case["s"], name, sel)
        for pre in itertools.product((rows, rows[:1], a, rows * 2), repeat=2):
            for p in pre:
                f(M(p))
            c.check(rows_match(A(f(M(rows))), full, range(5)), "%s: %s changed by earlier applications" % (case["s"], name))
            c.trace()


def run_case(case, c):
    c.sample(case)
    globals()["do_" + case["k"]](case, c)
