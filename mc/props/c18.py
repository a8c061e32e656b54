"""C18: forward values of the transformations."""
import itertools
import math
import warnings

import numpy as np
from sklearn import preprocessing as skp

from wai.ma.core.matrix import factory
from wai.ma.transformation import (Center, Standardize, RowNorm, Log, RobustScaler, PowerTransformer, QuantileTransformer, MultiplicativeScatterCorrection,
                                   PassThrough, SavitzkyGolay)
from wai.ma.transformation._YGradientGLSWSavitzkyGolayFilter import YGradientGLSWSavitzkyGolayFilter

from ..designs import plain
from ..util import M, A, generic, table, show, same

META = {
    "bounds": "29 designs up to 1100 rows or 80 columns (generic, shifted, scaled 1e-9..1e9, tied, duplicate and constant columns incl. constants whose sums round, single rows and columns) as configuration data, "
              "each applied to itself and to 3 other batches, for every transformation and a grid of all its parameters; scatter correction: all range lists up to 3 from 5 ranges, with and without prefilter",
    "oracle": "the defining formulas in numpy; scikit-learn's estimators for the power and quantile transforms (the library's documented definition)",
    "assumptions": ["columns whose spread is within rounding of zero but not constant are not judged"],
}

LOGS = [(b, o) for b in (math.e, 2, 10.0, 0.5, 3.7) for o in (1.0, 0, 20, 0.001, -0.25)]
ROBUST = [(c, s, q) for c in (True, False) for s in (True, False) for q in ((25.0, 75.0), (10.0, 90.0), (1.0, 51.0), (49.0, 99.0))]
POWER = [(m, s) for m in ("yeo-johnson", "box-cox") for s in (True, False)]
QUANT = [(n, d, r) for n in (3, 10, 1000) for d in ("uniform", "normal") for r in (None, 0)]


def cases(tier):
    names = list(plain())
    for n in names:
        for k in ("center", "standardize", "rownorm", "log", "robust", "power", "quantile", "pass", "ygrad"):
            yield {"k": k, "d": n}
    yield {"k": "single"}
    yield {"k": "msc"}
    yield {"k": "quick"}
    yield {"k": "reject"}
    for d in ["int:%d:%d" % s for s in ((65, 3), (300, 2), (3, 80), (1100, 2))]:
        for k in ("center", "standardize", "rownorm", "log", "robust", "power", "quantile", "pass", "ygrad"):
            yield {"k": k, "d": d}
    top = 9 if tier == "thorough" else 7
    for r in range(2, top):
        for p in range(1, top):
            for k in ("center", "standardize", "rownorm", "robust", "ygrad"):
                yield {"k": k, "d": "int:%d:%d" % (r, p)}
    if tier == "thorough":
        for seed in range(60):
            for k in ("power", "quantile", "robust", "standardize"):
                yield {"k": k, "d": "seed:%d" % seed}


def data(name):
    if name.startswith("int:"):
        r, p = map(int, name.split(":")[1:])
        return table(r, p, r * 10 + p, -3, 3)
    if name.startswith("seed:"):
        s = int(name.split(":")[1])
        return generic(5 + s % 7, 1 + s % 5, s, 10.0 ** (s % 5 - 2))
    return plain()[name]


def batches(a):
    r, p = a.shape
    return [("itself", a), ("other", a[::-1][: max(1, r - 1)] * 1.5 + 0.25 * np.abs(a).max(axis=0)), ("row", a[:1] - 0.5 * np.abs(a).max()), ("big", generic(r + 3, p, 77) * max(1e-9, np.abs(a).max()))]


def col_close(got, want, ref_scale, tol=1e-8):
    """Column-wise comparison; ref_scale is one magnitude per column (or a scalar)."""
    if got.shape != want.shape:
        return False
    return bool((np.abs(got - want) <= tol * np.maximum(np.asarray(ref_scale), 1e-300)).all())


def run_case(case, c):
    c.sample(case)
    k = case["k"]
    globals()["do_" + k](case, c, data(case["d"]) if "d" in case else None)


def done(c, *key):
    c.trace()
    c.state(*key)


def do_center(case, c, a):
    t = Center()
    t.configure(M(a))
    for n, b in batches(a):
        want = b - a.mean(axis=0)
        got = A(t.transform(M(b)))
        c.check(col_close(got, want, np.abs(b).max(axis=0) + np.abs(a).max(axis=0), 1e-12), lambda: "Center configured with %s applied to %s: %s expected %s" % (show(a), n, show(got), show(want)))
        done(c, case["d"], n)
    got = A(Center().transform(M(a)))
    c.check(col_close(got, a - a.mean(axis=0), np.abs(a).max(axis=0), 1e-12), "Center.transform unconfigured")


def std_of(a):
    """Standard deviations with the documented rule, and which columns can be judged."""
    const = (a == a[0]).all(axis=0)
    dev = a - a.mean(axis=0)
    sd = np.sqrt((dev * dev).sum(axis=0) / max(1, len(a) - 1))
    sd = np.where(const, 1.0, sd)
    judge = const | (sd > 1e-13 * np.abs(a).max(axis=0))
    return sd, judge


def do_standardize(case, c, a):
    sd, judge = std_of(a)
    mean = a.mean(axis=0)
    for explicit in (True, False):
        t = Standardize()
        if explicit:
            t.configure(M(a))
        for n, b in batches(a):
            want = (b - mean) / sd
            got = A(t.transform(M(b)))
            scale = (np.abs(b).max(axis=0) + np.abs(a).max(axis=0)) / sd
            c.check(got.shape == want.shape and col_close(got[:, judge], want[:, judge], scale[judge], 1e-9), lambda: "Standardize configured with %s applied to %s: %s expected %s" % (show(a), n, show(got), show(want)))
            done(c, case["d"], n, explicit)
        c.check(col_close(A(t.get_means())[:, judge], mean.reshape(1, -1)[:, judge], np.abs(a).max(axis=0)[judge], 1e-12), lambda: "Standardize means %s for %s" % (A(t.get_means()), show(a)))
        c.check(col_close(A(t.get_std_devs())[:, judge], sd.reshape(1, -1)[:, judge], sd[judge] + 1e-3 * np.abs(a).max(axis=0)[judge], 1e-9), lambda: "Standardize deviations %s for %s" % (A(t.get_std_devs()), show(a)))


def do_rownorm(case, c, a):
    t = RowNorm()
    if a.shape[1] < 2:
        return
    mats = [b for _, b in batches(a)] + [a.T] if a.shape[0] > 1 else [a]
    for x in mats:
        sd, judge = std_of(x.T)
        want = (x - x.mean(axis=1, keepdims=True)) / sd[:, None]
        got = A(t.transform(M(x)))
        scale = np.abs(x).max(axis=1)[:, None] / sd[:, None] + 1e-300
        ok = got.shape == want.shape and bool((np.abs(got - want)[judge] <= 1e-9 * scale[judge]).all())
        c.check(ok, lambda: "RowNorm of %s: %s expected %s" % (show(x), show(got), show(want)))
        m, s = A(t.get_means()), A(t.get_std_devs())
        c.check(m.shape == (len(x), 1) and s.shape == (len(x), 1) and np.allclose(m[:, 0], x.mean(axis=1), 1e-9, 1e-12 * np.abs(x).max()), "RowNorm statistics")
        done(c, case["d"], x.tobytes())


def do_log(case, c, a):
    for base, off in LOGS:
        t = Log()
        t.base, t.offset = base, off
        for n, b in batches(a):
            x = b + off
            try:
                got = A(t.transform(M(b)))
            except ValueError:
                got = None
            if (x <= 0).any():
                c.check(got is None, lambda: "Log(base=%r, offset=%r) of %s returned %s" % (base, off, show(b), show(got)))
            else:
                want = np.log(x) / np.log(base)
                c.check(got is not None and got.shape == want.shape and (np.abs(got - want) <= 1e-10 * (1 + np.abs(want))).all(), lambda: "Log(base=%r, offset=%r) of %s returned %s expected %s" % (base, off, show(b), got is not None and show(got), show(want)))
            done(c, case["d"], base, off, n)


def percentile(col, q):
    s = sorted(col)
    pos = (len(s) - 1) * q / 100.0
    i = int(math.floor(pos))
    j = min(i + 1, len(s) - 1)
    return s[i] + (s[j] - s[i]) * (pos - i)


def do_robust(case, c, a):
    for cen, sca, q in ROBUST:
        t = RobustScaler()
        t.with_centering, t.with_scaling, t.quantile_range = cen, sca, q
        med = np.array([percentile(col, 50) for col in a.T])
        iqr = np.array([percentile(col, q[1]) - percentile(col, q[0]) for col in a.T])
        small = iqr <= 1e-12 * np.abs(a).max(axis=0)
        exact0 = iqr == 0
        iqr = np.where(exact0, 1.0, iqr)
        judge = exact0 | ~small if sca else np.ones(len(iqr), bool)
        t.configure(M(a))
        for n, b in batches(a):
            want = b - (med if cen else 0)
            want = want / (iqr if sca else 1)
            got = A(t.transform(M(b)))
            scale = (np.abs(b).max(axis=0) + np.abs(a).max(axis=0)) / (iqr if sca else 1)
            # scikit-learn treats scales below 10*eps as constant
            jj = judge & ((iqr > 1e-14) if sca else True)
            c.check(got.shape == want.shape and col_close(got[:, jj], want[:, jj], np.broadcast_to(scale, iqr.shape)[jj], 1e-9),
                    lambda: "RobustScaler(%s,%s,%s) configured with %s applied to %s: %s expected %s" % (cen, sca, q, show(a), n, show(got), show(want)))
            done(c, case["d"], cen, sca, q, n)


def do_power(case, c, a):
    for method, std in POWER:
        x = np.abs(a) + 0.5 * np.abs(a).max() + 1e-3 if method == "box-cox" else a
        try:
            ref = skp.PowerTransformer(method=method, standardize=std).fit(x)
        except Exception:
            continue
        t = PowerTransformer()
        t.method, t.standardise = method, std
        t.configure(M(x))
        for n, b in batches(x):
            b = np.abs(b) + 1e-3 if method == "box-cox" else b
            try:
                want = ref.transform(b)
            except ValueError:      # the power overflows
                c.guarded += 1
                continue
            got = A(t.transform(M(b)))
            c.check(got.shape == want.shape and np.allclose(got, want, 1e-7, 1e-9, equal_nan=True), lambda: "PowerTransformer(%s,%s) configured with %s applied to %s: %s expected %s" % (method, std, show(x), n, show(got), show(want)))
            done(c, case["d"], method, std, n)
        if case["d"] in ("near", "shift", "scales"):    # exponents so extreme that the statistics cancel
            continue
        got = A(t.transform(M(x)))
        if std and np.isfinite(got).all():
            nc = np.array([len(set(col)) > 1 for col in x.T]) & (got.std(axis=0) > 1e-3)
            c.check(np.allclose(got.mean(axis=0)[nc], 0, atol=1e-3) and np.allclose(got.std(axis=0)[nc], 1, atol=1e-3), lambda: "PowerTransformer(%s, standardised) of its own data has means %s deviations %s" % (method, got.mean(axis=0), got.std(axis=0)))


def do_quantile(case, c, a):
    for nq, dist, rs in QUANT:
        for sub in (100000, 10000):
            for zeros in (False,):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    ref = skp.QuantileTransformer(n_quantiles=nq, output_distribution=dist, subsample=sub, random_state=rs, ignore_implicit_zeros=zeros).fit(a)
                    t = QuantileTransformer()
                    t.n_quantiles, t.output_distribution, t.subsample, t.random_state, t.ignore_implicit_zeroes = nq, dist, sub, rs, zeros
                    t.configure(M(a))
                    for n, b in batches(a):
                        want = ref.transform(b)
                        got = A(t.transform(M(b)))
                        c.check(got.shape == want.shape and np.allclose(got, want, 1e-9, 1e-11), lambda: "QuantileTransformer(%s,%s,%s) configured with %s applied to %s: %s expected %s" % (nq, dist, rs, show(a), n, show(got), show(want)))
                        if dist == "uniform":
                            c.check((got >= 0).all() and (got <= 1).all(), "QuantileTransformer leaves [0,1]")
                        done(c, case["d"], nq, dist, rs, n)


def do_pass(case, c, a):
    t = PassThrough()
    for n, b in batches(a):
        for f in (t.transform, t.inverse_transform):
            c.check(same(A(f(M(b))), b), "PassThrough changed %s" % show(b))
        done(c, case["d"], n)


def ygrad_ref(a):
    r = len(a)
    ext = lambda i: a[min(max(i, 0), r - 1)]
    return np.array([0.2 * ext(i - 2) + 0.1 * ext(i - 1) - 0.1 * ext(i + 1) - 0.2 * ext(i + 2) for i in range(r)])


def do_ygrad(case, c, a):
    t = YGradientGLSWSavitzkyGolayFilter()
    for n, b in batches(a):
        want = ygrad_ref(b)
        got = A(t.transform(M(b)))
        c.check(got.shape == want.shape and np.allclose(got, want, 1e-9, 1e-12 * np.abs(b).max()), lambda: "gradient filter of %s: %s expected %s" % (show(b), show(got), show(want)))
        done(c, case["d"], n)


def do_single(case, c, _):
    """One row, one column, one cell."""
    for p in range(1, 6):
        a = generic(1, p, p)
        got = A(Center().transform(M(a)))
        c.check(same(got, np.zeros((1, p))), "Center of one row: %s" % got)
        t = RobustScaler()
        c.check(np.allclose(A(t.transform(M(a))), 0), "RobustScaler of one row")
        t = Log()
        c.check(np.allclose(A(t.transform(M(np.abs(a)))), np.log(np.abs(a) + 1)), "Log of one row")
        t = Standardize()
        t.configure(M(generic(5, p, 3)))
        g = generic(5, p, 3)
        c.check(np.allclose(A(t.transform(M(a))), (a - g.mean(axis=0)) / g.std(axis=0, ddof=1)), "Standardize of one row with other statistics")
        done(c, p)


def msc_ref(avg, spec, ranges, pre):
    out = spec.copy()
    f = pre(spec) if pre else spec
    for lo, hi in ranges:
        sel = [i for i in range(len(avg)) if lo <= f[i, 0] <= hi]
        x, y = avg[sel, 1], f[sel, 1]
        b = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
        a = y.mean() - b * x.mean()
        for i in range(len(out)):
            if lo <= out[i, 0] <= hi:
                out[i, 1] = (out[i, 1] - a) / b
    return out


def do_msc(case, c, _):
    waves = np.arange(12) * 10.0 + 100
    amps = [np.abs(generic(1, 12, s)[0]) + 3 + 0.2 * s * np.arange(12) for s in range(4)]
    spectra = [factory.create_spectrum(list(waves), list(x)) for x in amps]
    conf = MultiplicativeScatterCorrection.create_configuration_matrix(spectra)
    want = np.column_stack([waves] + amps)
    c.check(np.allclose(A(conf), want), "create_configuration_matrix gave %s" % show(conf.data))
    try:
        MultiplicativeScatterCorrection.create_configuration_matrix([])
        c.fail("create_configuration_matrix([]) accepted")
    except Exception:
        c.tick()
    avg = np.column_stack([waves, np.mean(amps, axis=0)])
    pool = [(100.0, 210.0), (100.0, 150.0), (155.0, 210.0), (120.0, 180.0), (100.0, 130.0)]

    class Double:
        def transform(self, m):
            x = A(m)
            x[:, 1] = x[:, 1] * 2 + 1
            return M(x)
    for n in range(0, 4):
        for ranges in itertools.permutations(pool, n):
            for pre in (None, Double()):
                t = MultiplicativeScatterCorrection()
                t.correction.ranges = list(ranges)
                t.correction.prefilter = pre
                t.configure(conf)
                for s in spectra + [factory.create_spectrum(list(waves), list(amps[1] * 3 - amps[2]))]:
                    w = msc_ref(avg, A(s), ranges, (lambda x: np.column_stack([x[:, 0], x[:, 1] * 2 + 1])) if pre else None)
                    got = A(t.transform(s))
                    c.check(got.shape == w.shape and np.allclose(got, w, 1e-7, 1e-7 * np.abs(w).max()), lambda: "scatter correction with ranges %s: %s expected %s" % (ranges, show(got), show(w)))
                    c.check(same(got[:, 0], waves), "scatter correction changed the wave numbers")
                done(c, ranges, pre is None)


def do_quick(case, c, _):
    for name, a in plain().items():
        for cls in (Center, Standardize, RowNorm, RobustScaler, PassThrough, YGradientGLSWSavitzkyGolayFilter, SavitzkyGolay):
            if a.shape[0] < 2 or a.shape[1] < 8 and cls is SavitzkyGolay:
                continue
            if cls is RowNorm and a.shape[1] < 2:
                continue
            c.check(same(A(cls.quick_apply(M(a))), A(cls().transform(M(a)))), "%s.quick_apply differs from a fresh transform on %s" % (cls.__name__, name))
            done(c, name, cls.__name__)


def do_reject(case, c, _):
    for cls, attr, bad in ((Log, "base", 1), (Log, "base", 0), (Log, "base", -2), (Log, "base", 1.0), (RobustScaler, "quantile_range", (75.0, 25.0)), (RobustScaler, "quantile_range", (0.0, 50.0)),
                           (RobustScaler, "quantile_range", (50.0, 100.0)), (RobustScaler, "quantile_range", (50.0, 50.0)), (PowerTransformer, "method", "log"), (QuantileTransformer, "output_distribution", "poisson")):
        t = cls()
        before = getattr(t, attr)
        try:
            setattr(t, attr, bad)
            c.fail("%s.%s = %r was accepted" % (cls.__name__, attr, bad))
        except Exception:
            c.check(getattr(t, attr) == before, "%s.%s changed by a rejected value" % (cls.__name__, attr))
        done(c, cls.__name__, attr, bad)
