"""C17: canonical correlation projections against their defining equations."""
import numpy as np

from wai.ma.algorithm import CCAFilter

from ..designs import plain, regress, VARIANTS
from ..util import M, A, generic, show, outcome

META = {
    "bounds": "13 shapes (1 to 30 predictors, 1 to 6 responses, 1 to 40 rows, more columns than rows) x 11 data variants + 31 fixed designs paired with themselves, a permutation, a linear map, a constant and independent responses x every number of dimensions up to min(p,q)+1 x 8 pairs of regularisation values (0 where regular), each also on an object that served other data; new rows, single rows, far rows; thorough: 8 seeds per variant",
    "oracle": "defining equations evaluated in numpy: A'CxxA = I, B'CyyB = I, A'CxyB = diag of the leading singular values of the whitened cross-covariance; application as affine map with the training means",
    "assumptions": ["settings whose regularised covariance has a condition number above 1e9 are only checked for the application of the projections and counted as guarded"],
}

SHAPES = [(6, 3, 2), (8, 2, 3), (5, 4, 4), (4, 6, 2), (3, 5, 6), (12, 5, 1), (10, 1, 3), (9, 1, 1), (20, 3, 3), (7, 30, 2), (40, 4, 6), (2, 2, 2), (1, 3, 2)]
LAMBDAS = [(1e-2, 1e-2), (0.0, 0.0), (1.0, 1e-3), (1e-3, 5.0), (100.0, 100.0), (0.0, 0.5), (0.5, 0.0), (1e-6, 1e-6)]
PARTNERS = ["self", "reversed", "linear", "const", "noise", "negative"]


def cases(tier):
    for d in plain():
        for other in PARTNERS:
            yield {"d": d, "other": other}
    for seed in range(8 if tier == "thorough" else 1):
        for n, p, q in SHAPES:
            for v in VARIANTS:
                if p == 1 and v in ("const", "dup"):
                    continue
                yield {"d": "regress", "n": n, "p": p, "q": q, "var": v, "seed": seed}


def data(case):
    if case["d"] == "regress":
        return regress(case["n"], case["p"], case["q"], case["var"], 50 * case["seed"] + 11)[:2]
    x = plain()[case["d"]]
    n, p = x.shape
    y = {"self": x.copy(), "reversed": x[:, ::-1].copy(), "linear": x @ generic(p, 2, 61) / 5 + 3, "const": np.full((n, 2), 2.5),
         "noise": generic(n, 3, 62), "negative": -x}[case["other"]]
    return x, y


def run_case(case, c):
    c.sample(case)
    x, y = data(case)
    top = min(x.shape[1], y.shape[1])
    ks = range(1, top + 2) if top <= 6 else (1, 2, 5, top - 1, top, top + 1)
    used = CCAFilter()
    for k in ks:
        for lx, ly in LAMBDAS:
            for fresh in (True, False):
                o = CCAFilter() if fresh else used
                if not fresh or (k, lx, ly) != (1, 1e-2, 1e-2):  # these are the defaults: taken from the constructor
                    o.kcca, o.lambda_X, o.lambda_Y = k, lx, ly
                label = "kcca=%d lambda=%g,%g %s %s" % (k, lx, ly, "fresh" if fresh else "used before", case)
                c.tick()
                c.trace()
                if k > top:
                    r = o.initialize(M(x), M(y))
                    if r is None:
                        c.fail("%s: %d dimensions accepted though only %d exist" % (label, k, top))
                    if outcome(o.transform, M(x))[0] == "ok":
                        c.fail("%s: transforms after a refused training" % label)
                    continue
                examine(c, label, o, x, y, k, lx, ly)
        c.state(case, k)


def cond(m):
    v = np.linalg.eigvalsh(m)
    return v[-1] / v[0] if v[0] > 0 else np.inf


def whitener(m):
    v, u = np.linalg.eigh(m)
    return (u / np.sqrt(v)) @ u.T


def examine(c, label, o, x, y, k, lx, ly):
    mx, my = x.mean(axis=0), y.mean(axis=0)
    xc, yc = x - mx, y - my
    Cxx, Cyy, Cxy = xc.T @ xc + lx * np.eye(x.shape[1]), yc.T @ yc + ly * np.eye(y.shape[1]), xc.T @ yc
    worst = max(cond(Cxx), cond(Cyy))
    how, r = outcome(o.initialize, M(x), M(y))
    if worst > 1e9:
        c.guarded += 1
        if how != "ok" or r is not None:
            return
    elif how != "ok" or r is not None:
        c.fail("%s: training gave %s %s" % (label, how, r))
        return
    got = {}
    for side, a, mean, apply in (("X", x, mx, o.transform), ("Y", y, my, o.transform_response)):
        proj = A(getattr(o, "proj_" + side))
        if worst > 1e9 and not np.isfinite(proj).all():
            return
        if proj.shape != (a.shape[1], k) or not np.isrealobj(proj) or not np.isfinite(proj).all():
            c.fail("%s: projection of %s is %s" % (label, side, show(proj)))
            return
        spread = np.abs(a).max() or 1.0
        for name, new in (("training rows", a), ("unit rows", np.eye(a.shape[1]) * spread + mean), ("one row", a[-1:] * 1.5), ("far rows", generic(3, a.shape[1], 5) * spread * 100)):
            c.tick()
            t = A(apply(M(new)))
            want = (new - mean) @ proj
            tol = 1e-12 * ((np.abs(new) + np.abs(mean)) @ np.abs(proj)) + 1e-300
            if t.shape != want.shape or not (np.abs(t - want) <= tol).all():
                c.fail("%s: %s of %s become %s, centred with the training means and projected %s" % (label, name, side, show(t), show(want)))
        got[side] = proj
    if worst > 1e9:
        return
    P, Q = got["X"], got["Y"]
    tol = 1e-8 + 1e-14 * worst
    s = np.linalg.svd(whitener(Cxx) @ Cxy @ whitener(Cyy), compute_uv=False)
    for what, value, want in (("regularised variance of X", P.T @ Cxx @ P, np.eye(k)), ("regularised variance of Y", Q.T @ Cyy @ Q, np.eye(k)), ("cross-correlations", P.T @ Cxy @ Q, np.diag(s[:k]))):
        if np.abs(value - want).max() > tol:
            c.fail("%s: %s is %s instead of %s" % (label, what, show(value), show(want)))
