"""C14: PCA against the definition of principal components."""
import numpy as np

from wai.ma.algorithm import PCA

from ..designs import plain, regress, VARIANTS
from ..util import M, A, generic, table, show, outcome

META = {
    "bounds": "32 fixed designs + 12 shapes x 11 data variants (+ 6 designs with exactly representable variance shares), 1 to 40 columns, 2 to 120 rows, p > n, constant, duplicate, tied, badly scaled columns x centring/standardising x maximum columns (unlimited, 1..p+1) x every share of variance just below, between and just above (for the exact designs also exactly at) each cumulative share and the default; every setting also on an object that served other data and settings before; thorough: 8 seeds per variant",
    "oracle": "defining equations of principal components evaluated in numpy: eigen equations of the covariance, orthonormal loadings, projections, decreasing variances, smallest sufficient number of components",
    "assumptions": ["component counts are not judged where the requested share is within 1e-9 of a cumulative share, except on the exactly representable designs"],
}

SHAPES = [(2, 2), (3, 2), (5, 3), (9, 4), (4, 4), (4, 6), (12, 5), (6, 1), (20, 3), (7, 7), (3, 4), (5, 6)]


def exact():
    """Centred, orthogonal columns over 8 + 1 rows: the covariance is exactly diag(s^2)."""
    h = np.array([[1.0]])
    for _ in range(3):
        h = np.block([[h, h], [h, -h]])
    h = np.vstack([h[:, 1:], np.zeros((1, 7))])
    out = {}
    for name, s in (("4,1,1,1,1", [2, 1, 1, 1, 1]), ("1,1,4,1,1", [1, 1, 2, 1, 1]), ("4,4", [2, 2]), ("16,4,4,4,4", [4, 2, 2, 2, 2]), ("1,1,1,1", [1, 1, 1, 1]), ("16,16,1/4..", [4, 4, 0.5, 0.5])):
        out["exact " + name] = h[:, :len(s)] * np.array(s, float)
    out["exact const"] = np.hstack([h[:, :1] * 2, np.full((9, 1), 3.0), h[:, 1:5]])
    return out


def cases(tier):
    for d in plain():
        yield {"d": d}
    for d in exact():
        yield {"d": d}
    for seed in range(8 if tier == "thorough" else 1):
        for n, p in SHAPES:
            for v in VARIANTS:
                if p == 1 and v in ("const", "dup"):
                    continue
                yield {"d": "regress", "n": n, "p": p, "var": v, "seed": seed}


def data(case):
    if case["d"] == "regress":
        return regress(case["n"], case["p"], 1, case["var"], 50 * case["seed"] + 7)[0]
    if case["d"].startswith("exact"):
        return exact()[case["d"]]
    return plain()[case["d"]]


def run_case(case, c):
    c.sample(case)
    x = data(case)
    keep = [j for j in range(x.shape[1]) if len(set(x[:, j])) > 1]
    p = len(keep)
    used = PCA()
    for center in (False, True):
        if not keep:
            o = PCA()
            o.center = center
            kind, r = outcome(o.transform, M(x))
            c.check(kind == "err" or A(r).size == 0 or not A(r).any(), "%s: scores %s for data that don't vary" % (case, r))
            continue
        z = x[:, keep] - x[:, keep].mean(axis=0)
        if not center:
            z = z / x[:, keep].std(axis=0, ddof=1)
        cov = z.T @ z / (len(x) - 1)
        lam = np.sort(np.maximum(np.linalg.eigvalsh(cov), 0))[::-1]
        share = np.cumsum(lam) / lam.sum()
        wanted = {0.95, 1e-6, 0.5}
        for a, b in zip([0.0] + list(share[:-1]), share):
            wanted |= {(a + b) / 2, b - 1e-6, b + 1e-6}
            if case["d"].startswith("exact"):
                wanted |= {round(b * 32) / 32}
        wanted = sorted(v for v in wanted if 0 < v < 1)
        if len(wanted) > 24:
            wanted = wanted[::len(wanted) // 24 + 1] + [0.95]
        limits = sorted({-1, 1, 2, p - 1, p, p + 1, len(x)} - {0})
        if x.size > 200:
            limits = [-1, 1, 2]
            wanted = [0.3, 0.5, 0.9, 0.95, 0.999]
        for mx in limits:
            for var in wanted:
                k = int(np.argmax(share >= var)) + 1 if (share >= var).any() else p
                sure = np.abs(share - var).min() > 1e-9 or case["d"].startswith("exact") and var * 32 % 1 == 0
                if mx > 0:
                    sure = sure or mx <= int(np.argmax(share >= var - 1e-9)) + 1
                    k = min(k, mx)
                for o, kind in ((PCA(), "fresh"), (used, "used")):
                    if kind == "used" or (var, mx, center) != (0.95, -1, False):  # those are the defaults: taken from the constructor
                        o.variance, o.max_columns, o.center = var, mx, center
                    judge(c, "%s, %s, variance=%r, max_columns=%d, center=%s" % (case, kind, var, mx, center), o, x, keep, z, cov, lam, k if sure else None)
                    if kind == "used" and (mx, var) == (limits[0], wanted[0]):
                        o.transform(M(table(5, 3, 9)))
                c.trace()
                c.state(case, center, mx, var)


def judge(c, label, o, x, keep, z, cov, lam, k):
    s = o.transform(M(x))
    s, sc, ld = A(s), A(o.scores), A(o.loadings)
    c.tick(6)
    n, p0 = x.shape
    p = len(keep)
    if k is None:
        c.guarded += 1
        k = s.shape[1]
    if s.shape != (n, k):
        c.fail("%s: %d components kept for %d rows, expected %d for %d; shares %s" % (label, s.shape[1], s.shape[0], k, n, (np.cumsum(lam) / lam.sum())[:8]))
        return
    if not np.array_equal(s, sc):
        c.fail("%s: recorded scores differ from the returned ones" % label)
    if ld.shape != (p0, k + 1):
        c.fail("%s: loadings of shape %s, expected %s" % (label, ld.shape, (p0, k + 1)))
        return
    if not np.array_equal(ld[:, -1], np.arange(1, p0 + 1)):
        c.fail("%s: column numbers of the loadings %s" % (label, ld[:, -1]))
    gone = [j for j in range(p0) if j not in keep]
    if ld[gone, :-1].any():
        c.fail("%s: constant columns have loadings" % label)
    v = ld[keep, :-1]
    if not (np.isfinite(s).all() and np.isfinite(v).all()):
        c.fail("%s: non-finite result" % label)
        return
    tol = 1e-9
    if np.abs(v.T @ v - np.eye(k)).max() > tol:
        c.fail("%s: loadings aren't orthonormal: %s" % (label, show(v.T @ v)))
    if np.abs(cov @ v - v * lam[:k]).max() > tol * lam[0]:
        c.fail("%s: loadings aren't the leading eigenvectors; variances %s along them, eigenvalues %s" % (label, show(np.diag(v.T @ cov @ v)), show(lam)))
    if np.abs(s - z @ v).max() > tol * max(np.abs(z).max(), 1e-300):
        c.fail("%s: scores %s, projections on the loadings %s" % (label, show(s), show(z @ v)))
    var = s.T @ s / (n - 1)
    if np.abs(var - np.diag(lam[:k])).max() > tol * lam[0] or np.abs(s.mean(axis=0)).max() > tol * np.abs(z).max():
        c.fail("%s: covariance of the scores %s, eigenvalues %s" % (label, show(var), show(lam)))
    # the published spectrum
    ev = np.sort(A(o.eigenvalues).ravel())[::-1]
    if ev.shape != (p,) or np.abs(ev[:len(lam)] - lam).max() > tol * lam[0] or abs(float(o.sum_of_eigenvalues) - lam.sum()) > tol * lam.sum() * p:
        c.fail("%s: published eigenvalues %s with sum %r, variances along the principal axes %s" % (label, ev, o.sum_of_eigenvalues, lam))
    if np.abs(A(o.correlation) - cov).max() > tol * lam[0]:
        c.fail("%s: published covariance %s, by definition %s" % (label, show(A(o.correlation)), show(cov)))
    co = o.get_coefficients()
    if np.array(co).shape != (k, len(keep)) or np.abs(np.array(co).T - v).max() > 1e-12:
        c.fail("%s: coefficients %s differ from the loadings" % (label, co))
