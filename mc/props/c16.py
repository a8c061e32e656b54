"""C16: GLSW, EPO and their gradient variants against their definitions."""
import numpy as np

from wai.ma.algorithm.glsw import GLSW, EPO, YGradientGLSW, YGradientEPO

from ..designs import regress, VARIANTS
from ..util import M, A, generic, table, show, outcome

META = {
    "bounds": "12 shapes (1 to 30 columns, 2 to 120 rows, more columns than rows) x 11 data variants x 9 kinds of difference (generic, tiny, huge, of rank 1 or 2, along one column, constant offset, none, with offset and 1e4 level) for the paired filters, x 7 response kinds (sorted, reversed, tied, skewed, shifted) for the gradient filters x 5 values of alpha or 6 numbers of directions; projections read off the identity and applied to new rows",
    "oracle": "the definitions in numpy: eigenvectors of the covariance of the centred differences (or of the weighted gradients), weights 1/sqrt(lambda^2/alpha+1), projections built from the leading eigenvectors",
    "assumptions": ["comparisons on designs whose projection moves by more than 1e-4 when the data move by 1e-14 are skipped and counted as guarded", "N leading directions are judged one by one only where the eigenvalues separate the N-th from the next"],
}

SHAPES = [(6, 3), (4, 4), (3, 6), (5, 8), (2, 3), (10, 2), (8, 1), (12, 5), (4, 30), (7, 7), (40, 6), (120, 3)]
DIFFS = ["generic", "tiny", "huge", "rank1", "rank2", "column", "offset", "none", "level"]
YKINDS = ["plain", "sorted", "reversed", "ties", "skew", "shifted", "small"]
ALPHAS = [1e-3, 1.0, 0.25, 50.0, 1e4]


def cases(tier):
    for seed in range(6 if tier == "thorough" else 1):
        for n, p in SHAPES:
            for var in VARIANTS:
                if p == 1 and var in ("const", "dup"):
                    continue
                yield {"n": n, "p": p, "var": var, "seed": seed}


def pair(x, kind, seed):
    n, p = x.shape
    s = np.abs(x - x.mean(axis=0)).max() or 1.0
    g = generic(n, p, seed + 900) / 9
    d = {
        "generic": g * s / 3, "tiny": g * s * 1e-5, "huge": g * s * 1e3, "none": np.zeros((n, p)),
        "rank1": np.outer(g[:, 0], generic(1, p, seed + 3)[0]) * s / 5,
        "rank2": (g[:, :1] @ generic(1, p, seed + 3) + np.arange(n)[:, None] ** 2 / n @ generic(1, p, seed + 4)) * s / 9,
        "column": np.where(np.arange(p) == p // 2, g[:, :1] * s, 0.0), "offset": np.ones((n, 1)) @ generic(1, p, seed + 5) * s, "level": g * s + 3 * s,
    }[kind]
    return x + (1e4 * s if kind == "level" else 0), x + d


def response(n, kind, seed):
    y = generic(n, 1, seed + 40) / 4
    if kind == "sorted":
        y = np.sort(y, axis=0)
    elif kind == "reversed":
        y = np.sort(y, axis=0)[::-1]
    elif kind == "ties":
        y = table(n, 1, seed + 41, 0, 2)
        y[0], y[-1] = -1, 4
    elif kind == "skew":
        y = np.exp(y)
    elif kind == "shifted":
        y = y + 1000
    elif kind == "small":
        y = y * 1e-4
    return y


def diff_cov(x1, x2):
    d = (x2 - x2.mean(axis=0)) - (x1 - x1.mean(axis=0))
    return d.T @ d


def grad_cov(x, y, sign):
    """sign=1: weights from the increasing gradient, as published; -1: from its negative."""
    o = np.argsort(y[:, 0], kind="stable")

    def grad(a):
        e = np.vstack([a[:1], a[:1], a, a[-1:], a[-1:]])
        return (2 * e[4:] + e[3:-1] - e[1:-3] - 2 * e[:-4]) / 10
    xs, ys = grad(x[o]), sign * grad(y[o])[:, 0]
    w = 2.0 ** (-ys / ys.std(ddof=1))
    return (xs * (w ** 2)[:, None]).T @ xs


def weights(lam, alpha):
    return 1 / np.sqrt(lam ** 2 / alpha + 1)


def wob(a, f, off=0):
    return a * (1 + f * np.where((np.arange(a.size).reshape(a.shape) + off) % 3 == 1, -1, 1))


def run_case(case, c):
    c.sample(case)
    x, _, new = regress(case["n"], case["p"], 1, case["var"], 50 * case["seed"])
    seed = 50 * case["seed"]
    for kind in DIFFS:
        x1, x2 = pair(x, kind, seed)
        covs = {1: diff_cov(x1, x2)}
        moved = [diff_cov(wob(x1, 1e-14, i), wob(x2, -1e-14, i)) for i in (0, 1)]
        flat = kind in ("offset", "none")
        settings(case, c, kind, GLSW, EPO, x1, x2, new, covs, {1: moved}, flat)
    for kind in YKINDS:
        y = response(len(x), kind, seed)
        ext = np.sort(y[:, 0])[[0, 0] + list(range(len(y))) + [len(y) - 1] * 2]
        ys = 2 * ext[4:] + ext[3:-1] - ext[1:-3] - 2 * ext[:-4]
        if ys.std() < 1e-9 * np.abs(ys).max():      # the same gradient everywhere: the weights are undefined
            kind_, r = outcome(YGradientGLSW().initialize, M(x), M(y))
            c.guarded += 1
            continue
        covs = {s: grad_cov(x, y, s) for s in (1, -1)}
        moved = {s: [grad_cov(wob(x, 1e-14, i), wob(y, 1e-14, i), s) if len(set(y[:, 0])) == len(y) else grad_cov(wob(x, 1e-14, i), y, s) for i in (0, 1)] for s in (1, -1)}
        settings(case, c, kind, YGradientGLSW, YGradientEPO, x, y, new, covs, moved, False)


def settings(case, c, kind, G, E, a, b, new, covs, moved, flat):
    p = a.shape[1]
    for alpha in ALPHAS:
        o = G()
        o.alpha = alpha
        label = "%s alpha=%g, %s, %s" % (G.__name__, alpha, kind, case)
        g = fit(c, label, o, a, b, new)
        if g is not None:
            weighting(c, label, g, covs, moved, alpha, flat, len(a))
    for N in sorted({1, 2, 3, 5, p, p + 2}):
        o = E()
        o.N = N
        label = "%s N=%d, %s, %s" % (E.__name__, N, kind, case)
        g = fit(c, label, o, a, b, new)
        if g is not None:
            projecting(c, label, g, covs, moved, min(N, p), flat)
    c.state(case, kind, G.__name__)


def fit(c, label, o, a, b, new):
    """Trains and reads the projection off the identity."""
    c.tick(2)
    c.trace()
    p = a.shape[1]
    r = o.initialize(M(a), M(b))
    if r is not None:
        c.fail("%s: refused with %s" % (label, r))
        return None
    g = A(o.transform(M(np.eye(p))))
    t = A(o.transform(M(new)))
    one = A(o.transform(M(new[:1])))
    if not (np.isrealobj(g) and np.isrealobj(t)) or g.shape != (p, p) or t.shape != new.shape:
        c.fail("%s: projection of type %s and shape %s" % (label, g.dtype, g.shape))
        return None
    bound = 1e-11 * (np.abs(new) @ np.abs(g))
    if not (np.abs(t - new @ g) <= bound + 1e-300).all() or not (np.abs(one - new[:1] @ g) <= bound[:1] + 1e-300).all():
        c.fail("%s: transform gives %s, the data times the projection are %s" % (label, show(t), show(new @ g)))
    if np.abs(A(o.G) - g).max() > 1e-12 * max(1.0, np.abs(g).max()):
        c.fail("%s: the recorded projection isn't the one applied" % label)
    return g


def glsw_matrix(C, alpha):
    lam, v = np.linalg.eigh((C + C.T) / 2)
    return (v * weights(np.maximum(lam, 0), alpha)) @ v.T


def weighting(c, label, g, covs, moved, alpha, flat, n):
    if flat and np.abs(covs[1]).max() * 1e3 < np.sqrt(alpha) * 1e-6:
        if np.abs(g - np.eye(len(g))).max() > 1e-6:
            c.fail("%s: data without differences are changed by %s" % (label, show(g)))
        return
    verdicts = []
    for sign, C in covs.items():
        want = glsw_matrix(C, alpha)
        move = max(np.abs(glsw_matrix(m, alpha) - want).max() for m in moved[sign])
        lam = np.maximum(np.linalg.eigvalsh((C + C.T) / 2), 0)
        d = 1e-15 * len(C) * lam[-1]            # the accuracy of the eigenvalues themselves
        move += (weights(np.maximum(lam - d, 0), alpha) - weights(lam + d, alpha)).max()
        if move > 1e-4:
            c.guarded += 1
            return
        tol = 1e-9 + 10 * move
        err = np.abs(g - want).max()
        if err <= tol:
            verdicts.append((sign, "published"))
        elif asis(c, g, C, moved[sign], alpha, tol):
            verdicts.append((sign, "pairing"))
    if not verdicts:
        c.fail("%s: projection %s, by definition %s" % (label, show(g), show(glsw_matrix(covs[1], alpha))))
    elif (1, "published") not in verdicts:
        sign, how = sorted(verdicts, key=lambda v: (v[1] != "published", -v[0]))[0]
        if how == "pairing":
            c.known("glsw-pairing", label)
        if sign < 0:
            c.known("ygradient-sign", label)


def asis(c, g, C, moved, alpha, tol):
    """The weights, largest eigenvalue first, on the eigenvectors in the order of the general eigen solver."""
    p = len(C)
    lam, v = np.linalg.eigh((C + C.T) / 2)
    lam = np.maximum(lam, 0)
    w = weights(lam[::-1], alpha)
    groups, at = [], [0]
    for i in range(1, p):
        if lam[i] - lam[i - 1] > 1e-7 * lam[-1]:
            groups.append(at)
            at = []
        at.append(i)
    groups.append(at)
    local = v.T @ g @ v
    outside = local.copy()
    for grp in groups:
        outside[np.ix_(grp, grp)] = 0
    if np.abs(outside).max() > tol + 1e-8:
        return False
    found = [np.sort(np.linalg.eigvalsh((b + b.T) / 2)) for b in (local[np.ix_(grp, grp)] for grp in groups)]
    orders = []
    noisy = [C + 1e-16 * np.abs(C).max() * generic(p, p, i) / 9 for i in range(6)] + [C * (1 + 1e-15 * generic(p, p, i) / 9) for i in range(6)]
    for m in [C, C.T, (C + C.T) / 2] + list(moved) + noisy:
        vals = np.linalg.eigvals(m).real
        orders.append(tuple(np.argsort(np.argsort(vals, kind="stable"), kind="stable")))     # rank of the eigenvalue at each position
    for order in set(orders):
        pos = np.argsort(order)               # position of each rank
        if all(np.abs(f - np.sort(w[pos[grp]])).max() <= tol + 1e-8 for f, grp in zip(found, groups)):
            return True
    silent = (np.abs(C).max(axis=0) < 1e-10 * np.abs(C).max()).any()       # a column of rounding errors: no order is sure
    if (silent or len(set(orders)) > 1) and np.abs(np.sort(np.concatenate(found)) - np.sort(w)).max() <= tol + 1e-8:
        c.guarded += 1                        # the order depends on rounding
        return True
    return False


def projecting(c, label, g, covs, moved, N, flat):
    p = len(g)
    I = np.eye(p)
    verdicts = []
    if np.abs(g - g.T).max() > 1e-8 or np.abs(g @ g - g).max() > 1e-7:
        c.fail("%s: not an orthogonal projection: %s" % (label, show(g)))
        return
    for sign, C in covs.items():
        lam, v = np.linalg.eigh((C + C.T) / 2)
        lam, v = lam[::-1], v[:, ::-1]
        lead = v[:, :N] @ v[:, :N].T
        noise = 0.0
        for m in moved[sign]:
            v2 = np.linalg.eigh((m + m.T) / 2)[1][:, ::-1]
            noise = max(noise, np.abs(v2[:, :N] @ v2[:, :N].T - lead).max())
        if noise > 1e-4 or (N < p and lam[N - 1] - lam[N] < 1e-9 * lam[0]) or lam[0] <= 0:
            # the last directions are arbitrary: a projection of the right rank which contains all that are determined
            c.guarded += 1
            rank = round(np.trace(g))
            ok = [rank == p - N, rank == N]
            sure = [j for j in range(N) if N < p and lam[0] > 0 and lam[j] - lam[N] > 1e-3 * lam[0] and not flat] if noise <= 1e-4 else []
            if sure:
                s = v[:, sure]
                ok[0] = ok[0] and np.abs(g @ s).max() < 1e-5
                ok[1] = ok[1] and np.abs(g @ s - s).max() < 1e-5
            if ok[0]:
                verdicts.append((sign, "published"))
            elif ok[1]:
                verdicts.append((sign, "kept"))
            continue
        tol = 1e-8 + 10 * noise
        if np.abs(g - (I - lead)).max() <= tol:
            verdicts.append((sign, "published"))
        elif np.abs(g - lead).max() <= tol:
            verdicts.append((sign, "kept"))
    if not verdicts:
        c.fail("%s: projection %s, leading directions of %s" % (label, show(g), show(covs[1])))
    elif (1, "published") not in verdicts:
        sign, how = sorted(verdicts, key=lambda v: (v[1] != "published", -v[0]))[0]
        if how == "kept":
            c.known("epo-keeps-span", label)
        if sign < 0:
            c.known("ygradient-sign", label)
