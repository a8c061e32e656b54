"""C19: inverse transformation restores the data."""
import math

import numpy as np

from wai.ma.transformation import (Center, Standardize, Log, RobustScaler, PowerTransformer, QuantileTransformer, MultiplicativeScatterCorrection,
                                   PassThrough, SavitzkyGolay, SavitzkyGolay2)
from wai.ma.transformation._YGradientGLSWSavitzkyGolayFilter import YGradientGLSWSavitzkyGolayFilter

from ..designs import plain
from ..util import M, A, generic, table, show, same

META = {
    "bounds": "26 designs and all integer-table shapes up to 8x8 and four of up to 1100 rows or 80 columns as configuration data x 4 batches (itself, scaled and shifted other rows, single row, more rows) x every invertible transformation with a grid of "
              "all its parameters, both directions (inverse after forward, forward after inverse), explicit and implicit configuration, two round trips in a row; every non-invertible transformation on every design",
    "oracle": "identity of the composition; for saturating quantile transforms, identity on the configuration data",
    "assumptions": ["round trips are judged relative to the magnitude of the data and statistics of each column", "power transforms are judged where the forward image is finite and not saturated by rounding"],
}


def cases(tier):
    names = list(plain())
    top = 11 if tier == "thorough" else 7
    names += ["int:%d:%d" % (r, p) for r in range(2, top) for p in range(1, top)]
    names += ["int:%d:%d" % s for s in ((65, 3), (300, 2), (3, 80), (1100, 2))]
    if tier == "thorough":
        names += ["seed:%d" % s for s in range(80)]
    for n in names:
        for k in ("affine", "log", "robust", "power", "quantile", "none"):
            yield {"k": k, "d": n}


def data(name):
    if name.startswith("int:"):
        r, p = map(int, name.split(":")[1:])
        return table(r, p, r * 10 + p, -3, 3)
    if name.startswith("seed:"):
        s = int(name.split(":")[1])
        return generic(5 + s % 7, 1 + s % 5, s, 10.0 ** (s % 5 - 2))
    return plain()[name]


def batches(a):
    r, p = a.shape
    m = np.abs(a).max(axis=0)
    return [("itself", a), ("other", a[::-1][: max(1, r - 1)] * 1.5 + 0.25 * m), ("row", a[:1] - 0.5 * m), ("more", generic(r + 3, p, 77) * np.maximum(m, 1e-9) / 9)]


def run_case(case, c):
    c.sample(case)
    globals()["do_" + case["k"]](case, c, data(case["d"]))


def both(c, label, make, conf, batch, scale, tol, back=True, explicit=True):
    """inverse(forward(b)) == b, again on the restored data, and forward(inverse(z)) == z."""
    t = make()
    if explicit:
        t.configure(M(conf))
    else:
        t.transform(M(conf))
    z = A(t.transform(M(batch)))
    x = A(t.inverse_transform(M(z)))
    ok = x.shape == batch.shape and bool((np.abs(x - batch) <= tol * scale).all())
    c.check(ok, lambda: "%s configured with %s: %s became %s and came back as %s" % (label, show(conf), show(batch), show(z), show(x)))
    x2 = A(t.inverse_transform(M(A(t.transform(M(x))))))
    c.check(x2.shape == batch.shape and bool((np.abs(x2 - batch) <= 2 * tol * scale).all()), lambda: "%s: second round trip of %s gave %s" % (label, show(batch), show(x2)))
    if back:
        zs = 1 + np.abs(z)
        f = A(t.transform(M(A(t.inverse_transform(M(z))))))
        c.check(f.shape == z.shape and bool((np.abs(f - z) <= 1e-6 * zs).all()), lambda: "%s: forward of the inverse of %s gave %s" % (label, show(z), show(f)))
        # an image that is not the image of the batch
        t2 = make()
        t2.configure(M(conf))
        w = A(t2.inverse_transform(M(z)))
        c.check(same(w, A(t.inverse_transform(M(z)))), lambda: "%s: the inverse depends on earlier calls" % label)
    c.trace()
    c.state(label, conf.tobytes(), batch.tobytes(), explicit)


def do_affine(case, c, a):
    for cls in (Center, Standardize, PassThrough):
        for n, b in batches(a):
            for explicit in (True, False):
                scale = np.abs(a).max(axis=0) + np.abs(b).max(axis=0) + 1e-300
                # forward-after-inverse loses digits where the deviation is far below the mean
                back = bool((a.std(axis=0) > 1e-7 * np.abs(a).max(axis=0)).all())
                both(c, cls.__name__, cls, a, b, scale, 1e-10, back, explicit)


def do_log(case, c, a):
    for base in (math.e, 2, 10.0, 0.5, 3.7):
        for off in (1.0, 0, 20, 0.001, -0.25):
            def make():
                t = Log()
                t.base, t.offset = base, off
                return t
            for n, b in batches(a):
                b = np.abs(b) + max(0.0, -off) + 1e-3
                both(c, "Log(%r,%r)" % (base, off), make, np.abs(a) + max(0.0, -off) + 1e-3, b, np.abs(b) + abs(off) + 1, 1e-9, False)
                z = np.log(b) / 4 / math.log(base)
                t = make()
                f = A(t.transform(M(A(t.inverse_transform(M(z))))))
                c.check(np.allclose(f, z, 1e-6, 1e-6 * (1 + abs(off))), lambda: "Log(%r,%r): forward of the inverse of %s is %s" % (base, off, show(z), show(f)))


def do_robust(case, c, a):
    for cen in (True, False):
        for sca in (True, False):
            for q in ((25.0, 75.0), (10.0, 90.0), (1.0, 51.0)):
                def make():
                    t = RobustScaler()
                    t.with_centering, t.with_scaling, t.quantile_range = cen, sca, q
                    return t
                for n, b in batches(a):
                    scale = np.abs(a).max(axis=0) + np.abs(b).max(axis=0) + 1e-300
                    both(c, "RobustScaler(%s,%s,%s)" % (cen, sca, q), make, a, b, scale, 1e-10, False)


def do_power(case, c, a):
    if case["d"] in ("near", "shift", "scales", "allconst"):
        a = a - a.mean(axis=0) + np.arange(a.shape[1])      # exponents so extreme that the forward image saturates
        a = a / np.maximum(np.abs(a).max(axis=0), 1e-300) * 5
    for method in ("yeo-johnson", "box-cox"):
        for std in (True, False):
            x = np.abs(a) + 0.5 * np.abs(a).max() + 1e-3 if method == "box-cox" else a

            def make():
                t = PowerTransformer()
                t.method, t.standardise = method, std
                return t
            try:
                t = make()
                t.configure(M(x))
                z = A(t.transform(M(x)))
            except ValueError:
                if np.isfinite(x).all() and (np.ptp(x, axis=0) > 0).all():
                    raise
                c.guarded += 1      # Box-Cox refuses constant columns
                continue
            if not np.isfinite(z).all() or np.abs(z).max() > 1e12:
                c.guarded += 1
                continue
            back = A(t.inverse_transform(M(z)))
            # how strongly the inverse amplifies rounding of the image, measured on the independent estimator
            from sklearn import preprocessing as skp
            ref = skp.PowerTransformer(method=method, standardize=std).fit(x)
            refb = ref.inverse_transform(ref.transform(x))
            well = np.isfinite(refb) & (np.abs(refb - x) <= 1e-7 * (1 + np.abs(x)))
            c.guarded += int((~well).sum())
            c.check(back.shape == x.shape and bool((np.abs(back - x)[well] <= 1e-6 * (1 + np.abs(x))[well]).all()),
                    lambda: "PowerTransformer(%s,%s): %s came back as %s" % (method, std, show(x), show(back)))
            sub = A(t.inverse_transform(M(A(t.transform(M(x[:1]))))))
            c.check(bool((np.abs(sub - x[:1])[well[:1]] <= 1e-6 * (1 + np.abs(x[:1]))[well[:1]]).all()), lambda: "PowerTransformer(%s,%s): row %s came back as %s" % (method, std, show(x[:1]), show(sub)))
            c.trace()
            c.state(method, std, case["d"])


def do_quantile(case, c, a):
    for dist in ("uniform", "normal"):
        for nq in (len(a), 1000):
            t = QuantileTransformer()
            t.n_quantiles, t.output_distribution = nq, dist
            t.configure(M(a))
            for rows in (a, a[:1], a[::-1]):
                back = A(t.inverse_transform(M(A(t.transform(M(rows))))))
                # scikit-learn resolves the normal distribution's bounds to 1e-7 in data units
                sc = np.abs(a).max(axis=0) + (1.0 if dist == "normal" else 1e-300)
                c.check(back.shape == rows.shape and bool((np.abs(back - rows) <= 1e-6 * sc).all()), lambda: "QuantileTransformer(%s,%s): %s came back as %s" % (nq, dist, show(rows), show(back)))
                c.trace()
                c.state(nq, dist, case["d"], rows.tobytes())


def do_none(case, c, a):
    for cls in (MultiplicativeScatterCorrection, SavitzkyGolay, SavitzkyGolay2, YGradientGLSWSavitzkyGolayFilter):
        for configured in (True, False):
            t = cls()
            if configured:
                try:
                    t.configure(M(a))
                except Exception:
                    continue
            try:
                r = t.inverse_transform(M(a))
                c.fail("%s.inverse_transform returned %s" % (cls.__name__, r))
            except Exception:
                c.tick()
            c.trace()
            c.state(cls.__name__, configured, case["d"])
