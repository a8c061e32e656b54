"""C27: DIPLS, VCPLS, PRM and sparse PLS against their equations."""
import numpy as np

from wai.ma.algorithm.pls import DIPLS, VCPLS, PRM, SparsePLS
from wai.ma.core import PreprocessingType

from .. import refs
from ..designs import regress, VARIANTS
from ..util import M, A, show, outcome

META = {
    "bounds": "4 algorithms (DIPLS in 3 modes) x 10 shapes (1 to 30 columns, 6 to 110 rows, more columns than rows) x 11 data variants x none/centred/standardised x 1 to 3 (5) components x penalties (DIPLS 1e-8..1e4 and negative, VCPLS 0..1e4 and negative, sparse PLS 0..0.99, PRM fair constant 0.3..1e12, tolerance, iteration limits incl. 0) x data with and without outliers; training rows, new rows, single rows, far rows; all recorded matrices",
    "oracle": "the published equations in numpy (recorded findings: as-is equations, matched exactly); at the neutral setting also orthogonal-scores PLS1 resp. least squares",
    "assumptions": ["comparisons on designs whose reference moves by more than 1e-5 (relative) when the data move by 1e-11 are skipped, and weight equations of DIPLS with a condition number above 1e7 and counted as guarded"],
}

SHAPES = [(8, 3), (9, 1), (12, 5), (10, 2), (30, 4), (8, 8), (7, 12), (6, 30), (20, 6), (110, 3)]
ALGS = ["DIPLS unsupervised", "DIPLS supervised", "DIPLS semisupervised", "VCPLS", "PRM", "SparsePLS"]
MODES = {"none": PreprocessingType.NONE, "center": PreprocessingType.CENTER, "standardize": PreprocessingType.STANDARDIZE}


def cases(tier):
    for seed in range(3 if tier == "thorough" else 1):
        for alg in ALGS:
            for n, p in SHAPES:
                for var in VARIANTS:
                    if p == 1 and var in ("const", "dup"):
                        continue
                    for out in ((False, True) if alg == "PRM" or tier == "thorough" else (n % 4 == 0,)):
                        yield {"a": alg, "n": n, "p": p, "var": var, "outliers": out, "seed": seed, "tier": tier}


def run_case(case, c):
    c.sample(case)
    x, y, new = regress(case["n"], case["p"], 1, case["var"], 50 * case["seed"] + 23)
    if case["outliers"]:
        # the outliers leave columns without variation as they are
        x[1] = x.mean(axis=0) + 20 * (x[1] - x.mean(axis=0))
        x[-2] = x.mean(axis=0) - 7 * (x[-2] - x.mean(axis=0))
        y[2] = y.mean() + 25 * (y[2] - y.mean())
    if case["var"] == "const":
        x[:, case["p"] // 2] = 3.7
    far = new * 3 + 50 * np.abs(x).max()
    batches = {"training": x, "new": new, "one row": new[:1], "far": far}
    top = 5 if case["tier"] == "thorough" else 3
    for mode in MODES:
        if case["tier"] == "quick" and mode == "center" and case["outliers"]:
            continue
        for k in range(1, min(top, case["p"], case["n"] - 3) + 1):
            globals()["do_" + case["a"].split()[0].lower()](case, c, x, y, new, batches, mode, k)


def wob(a, i):
    """The data moved by 1e-11 (the i-th pattern; constant columns stay constant)."""
    sign = np.cos((i + 1) * 1.7 * np.arange(1, a.size + 1).reshape(a.shape) ** 2)
    return a * (1 + 1e-11 * np.where((a == a[0]).all(axis=0), 0, sign))


def build(cls, mode, k, **settings):
    o = cls()
    o.preprocessing_type = MODES[mode]
    o.num_components = k
    for name, v in settings.items():
        setattr(o, name, v)
    return o


def align(a, b, signed):
    """Flips the columns of a towards b where the direction is arbitrary."""
    if signed or a.shape != b.shape:
        return a
    return a * np.where((a * b).sum(axis=0) < 0, -1, 1)


def movement(w, name, moved, signs):
    """How far the value moves with the data, relative to its magnitude."""
    scale = np.abs(w).max() or 1e-300
    out = 0.0
    for m in moved:
        if m is None or not np.isfinite(m[name]).all():
            return np.inf
        out = max(out, np.abs(align(m[name], w, name not in signs) - w).max() / scale)
    return out


def matches(got, want, moved, signs=()):
    """None when not comparable, else the name of the first mismatch or ''."""
    if want is None:
        return None
    bad = ""
    seen = False
    for name, w in want.items():
        g = got.get(name)
        if not np.isfinite(w).all():
            continue
        scale = np.abs(w).max() or 1e-300
        signed = name not in signs
        move = movement(w, name, moved, signs)
        if move > 1e-5:
            continue
        seen = True
        if g is None or g.shape != w.shape or not np.isfinite(g).all() or np.iscomplexobj(g):
            bad = bad or name
            continue
        if np.abs(align(g, w, signed) - w).max() > (1e-8 + 100 * move) * scale:
            bad = bad or name
    return bad if seen else None


def regular(want, moved, signs):
    """Whether every value of the reference is determined by the data."""
    return want is not None and all(np.isfinite(w).all() and movement(w, n, moved, signs) <= 1e-6 for n, w in want.items())


def reference(f, *data):
    """The reference and what it becomes for moved data."""
    out = []
    with np.errstate(all="ignore"):
        for i in range(4):
            try:
                out.append(f(*(data if i == 0 else [wob(a, i) for a in data])))
            except np.linalg.LinAlgError:
                out.append(None)
            if out[0] is None:
                break
    return out[0], out[1:]


def look(o, batches, names):
    got = {"predict " + b: A(o.predict(M(r))) for b, r in batches.items()}
    got.update({"transform " + b: A(o.transform(M(r))) for b, r in batches.items()})
    got.update({n: A(o.get_matrix(n)) for n in names})
    return got


def judge(c, case, label, o, r, batches, names, wants, signs=()):
    """wants: [(finding id or None, reference, reference on moved data)]; the first is the published one."""
    c.tick(len(batches) * 2)
    c.trace()
    label = "%s, %s" % (label, case)
    how, got = r if r[0] != "ok" or r[1] is not None else outcome(look, o, batches, names)
    if r[0] == "ok" and r[1] is None and how == "ok":
        verdicts = [matches(got, w, m, signs) for _, w, m in wants]
    else:
        verdicts = ["no result (%s: %s)" % (how, got) if regular(w, m, signs) else None for _, w, m in wants]
        got = {}
    if all(v is None for v in verdicts):
        c.guarded += 1
        return
    if verdicts[0] == "":
        return
    for (kid, w, _), v in zip(wants, verdicts):
        if v == "" and kid:
            c.known(kid, label)
            return
    if None in verdicts:
        c.guarded += 1
        return
    bad = verdicts[-1] or verdicts[0]
    w = wants[-1][1] or wants[0][1]
    c.fail("%s: %s is %s, by the equations %s" % (label, bad, show(got[bad]) if bad in got else None, show(w[bad]) if bad in w else None))


# ---------------------------------------------------------------- domain-invariant PLS

def do_dipls(case, c, x, y, new, batches, mode, k):
    kind = case["a"].split()[1]
    for h in sorted({len(x) // 2 + 1, len(x) - 2} | ({len(x) - 4} if len(x) > 8 else set())):
        for lam in (1.0, 1e-8, 0.03, 200.0, 1e4, -0.5):
            xs, xt, ys, yt = x[:h], x[h:], y[:h], y[h:]
            xu = new[1:]

            def ref(xs, xt, xu, ys, yt):
                m = refs.dipls(xs, xt, xu, ys, yt, kind, lam, k, mode)
                if m["cond"] > 1e7:
                    raise np.linalg.LinAlgError("the weight equations are badly conditioned")
                if any(np.isnan(v).any() for v in m["domain"].values()):
                    raise np.linalg.LinAlgError("nothing is left of a domain for the last components")
                out = {"predict " + b: m["predict"](r) for b, r in batches.items()}
                out.update({"transform " + b: m["transform"](r) for b, r in batches.items()})
                out.update({"T": m["T"], "P": m["P"], "Wdi": m["W"], "bdi": m["b"]}, **m["domain"])
                return out
            data = (xs, xt, xu, ys, yt)
            # constant columns of the parts stay constant; columns constant over all parts too
            want, moved = reference(ref, *data)
            o = build(DIPLS, mode, k, lambda_=lam)
            if kind == "unsupervised":
                r = outcome(o.initialize_unsupervised, M(xs), M(xt), M(ys))
            elif kind == "supervised":
                r = outcome(o.initialize_supervised, M(xs), M(xt), M(ys), M(yt))
            else:
                r = outcome(o.initialize_semisupervised, M(xs), M(xt), M(xu), M(ys), M(yt))
            judge(c, case, "lambda %g, %d source rows, %s, %d components" % (lam, h, mode, k), o, r, batches, ["T", "P", "Wdi", "bdi", "Ts", "Tt", "Ps", "Pt"], [(None, want, moved)])
            if lam == 1e-8 and r == ("ok", None):
                neutral_dipls(case, c, o, data, mode, k, kind, batches)
        c.state(case, mode, k, h)


def neutral_dipls(case, c, o, data, mode, k, kind, batches):
    xs, xt, xu, ys, yt = data
    allx = np.vstack([xs, xt] + ([xu] if kind == "semisupervised" else []))
    ally = ys if kind == "unsupervised" else np.vstack([ys, yt])
    px, py = refs.Prep(mode, allx), refs.Prep(mode, ally)
    X, Y = px(allx)[:len(ally)], py(ally)
    m, b0 = X.mean(axis=0), Y.mean()
    centre = px(xt).mean(axis=0) if kind == "unsupervised" else m
    ref = lambda X, Y: {b: py.back((px(r) - centre) @ refs.pls1(X - m, Y - b0, k)["coef"] + b0) for b, r in batches.items()}
    want, moved = reference(ref, X, Y)
    # the remaining penalty is far below the comparison's tolerance only while D is moderate
    d = np.abs((xs - xs.mean(axis=0)).T @ (xs - xs.mean(axis=0)) / (len(xs) - 1)).sum() + np.abs((xt - xt.mean(axis=0)).T @ (xt - xt.mean(axis=0)) / max(1, len(xt) - 1)).sum()
    s = reference(lambda: refs.pls1(X - m, Y - b0, k))[0]
    if s is None:
        c.guarded += 1
        return
    res = Y - b0 - s["T"] @ s["b"]
    if want is None or mode != "none" or 1e-8 * d / (res.T @ res).item() > 1e-11:
        c.guarded += 1
        return
    bad = matches({b: A(o.predict(M(r))) for b, r in batches.items()}, want, moved)
    c.check(not bad, "DIPLS without penalty differs from PLS1 (%s), %s" % (bad, case))


# ---------------------------------------------------------------- variable-constrained PLS

def weight_equation(X, y, w, lam):
    """Residual of (X'yy'X - lambda I) w = mu (X'X + 1e-7 I) w, shortfall of mu below the largest one, and their tolerances; None when badly conditioned."""
    I = np.eye(X.shape[1])
    g1, g2 = X.T @ y @ y.T @ X - lam * I, X.T @ X + 1e-7 * I
    top = np.linalg.eigvalsh(g2)
    cond = top[-1] / max(top[0], 1e-300)
    if top[0] < 1e-8 or cond > 1e10:
        return None
    L = np.linalg.cholesky(g2)
    m = np.linalg.solve(L, np.linalg.solve(L, g1).T)
    v, u = np.linalg.eigh((m + m.T) / 2)
    mu = (w.T @ g1 @ w).item() / (w.T @ g2 @ w).item()
    size = np.abs(g1).sum()
    spread = 1e-14 * cond * max(np.abs(v[-1]), size / top[-1]) + 1e-13 * np.abs(v).max()
    best = np.linalg.solve(L.T, u[:, [-1]])
    return {"vector": best / np.linalg.norm(best), "residual": np.abs(g1 @ w - mu * (g2 @ w)).max(), "tol": (1e-9 + 3e-14 * cond) * size, "short": v[-1] - mu, "spread": 1e-8 * np.abs(v[-1]) + 10 * spread,
            "clear": len(v) == 1 or v[-1] - v[-2] > 1e3 * spread}


def do_vcpls(case, c, x, y, new, batches, mode, k):
    px, py = refs.Prep(mode, x), refs.Prep(mode, y)
    for lam in (1.0, 0.0, 1e-3, 30.0, 1e4, -2.0):
        label = "VCPLS lambda %g, %s, %d components, %s" % (lam, mode, k, case)
        o = build(VCPLS, mode, k, lambda_=lam)
        how, r = outcome(o.initialize, M(x), M(y))
        c.tick()
        c.trace()
        c.state(case, mode, k, lam)
        failed = how != "ok" or r is not None
        W = np.zeros((x.shape[1], k)) if failed else A(o.get_matrix("W"))
        X, Y = px(x), py(y)
        size = np.linalg.norm(X)
        P, B, judged = [], [], True
        for j in range(k):
            if np.linalg.norm(X) < 1e-6 * size:
                judged = False
                break
            w = W[:, [j]]
            e = weight_equation(X, Y, w if np.isfinite(w).all() and w.any() else np.ones_like(w), lam)
            if e is None or not e["clear"]:
                judged = False
                break
            if np.linalg.norm(X.T @ Y) < 1e-6 * np.linalg.norm(px(x).T @ Y):
                judged = False           # the response is explained: what is left is rounding
                break
            if failed:
                w = W[:, [j]] = e["vector"]
                e = weight_equation(X, Y, w, lam)
            if not np.isrealobj(W) or not np.isfinite(w).all() or abs(np.linalg.norm(w) - 1) > 1e-9:
                c.fail("%s: weights %s" % (label, show(w)))
                return
            if not e["residual"] <= e["tol"] or not abs(e["short"]) <= e["spread"]:
                c.fail("%s: the weights of component %d leave a residual of %g (tolerated %g) in their equation, and reach %g less than the largest value (tolerated %g)" % (label, j + 1, e["residual"], e["tol"], e["short"], e["spread"]))
                return
            t = X @ w
            tt = (t ** 2).sum()
            if tt < 1e-12 * size ** 2:
                judged = False
                break
            p = X.T @ t / tt
            B.append((t * Y).sum() / tt)
            P.append(p[:, 0])
            X = X - t @ p.T
        if not judged:
            c.guarded += 1
            continue
        P, B = np.array(P).T, np.array(B).reshape(-1, 1)
        if np.linalg.cond(P.T @ W) > 1e6:
            c.guarded += 1
            continue
        if failed:
            c.fail("%s: no result: %s" % (label, r))
            return
        coef = W @ np.linalg.solve(P.T @ W, np.eye(k))
        R, coef = coef, coef @ B
        got = look(o, batches, ["P", "RegVector", "b_hat"])
        want = {"predict " + b: py.back(px(rows) @ coef) for b, rows in batches.items()}
        want.update({"transform " + b: px(rows) @ R for b, rows in batches.items()})
        want.update({"P": P, "RegVector": coef, "b_hat": B})
        for name, v in want.items():
            g = got[name]
            rows = batches.get(name.split(" ", 1)[-1])
            scale = np.abs(px(rows)).max() * (np.abs(coef).sum() if name.startswith("predict") else np.abs(R).sum()) + np.abs(v).max() if rows is not None else np.abs(v).max()
            if g.shape != v.shape or not np.abs(g - v).max() <= 1e-7 * scale:
                c.fail("%s: %s is %s, from the weights follows %s" % (label, name, show(g), show(v)))
        if lam == 0 and k == 1 and np.linalg.cond(px(x)) < 1e3:
            w = np.linalg.lstsq(px(x), py(y), rcond=None)[0]
            ridge = 1e-7 / np.linalg.svd(px(x), compute_uv=False)[-1] ** 2
            c.check(np.abs(px(x) @ (coef - w)).max() <= (1e-7 + 10 * ridge) * (np.abs(px(x) @ w).max() + np.abs(py(y)).max()), "%s: fitted values differ from least squares" % label)


# ---------------------------------------------------------------- partial robust M-regression

def l1_median(x, tol, max_iter):
    guess = x.mean(axis=0)
    for _ in range(max_iter):
        d = np.sqrt(((x - guess) ** 2).sum(axis=1))
        w = np.where(d < 1e-10, 10.0, 1 / np.where(d < 1e-10, 1, d))
        nxt = (x * w[:, None]).sum(axis=0) / w.sum()
        change = ((nxt - guess) ** 2).sum()
        guess = nxt
        if change < tol:
            break
    return guess


def fair(z, C):
    return 1 / (1 + np.abs(z / C)) ** 2


def leverage(t, C, tol, max_iter):
    d = np.sqrt(((t - l1_median(t, tol, max_iter)) ** 2).sum(axis=1))
    return fair(d / np.median(d), C)


def residual(r, C):
    return fair(r / np.median(np.abs(r - np.median(r))), C)


def prm(x, y, k, C, tol, max_iter, published):
    y = y[:, 0]
    wr, wx = residual(y - np.median(y), C), leverage(x, C, tol, max_iter)
    gamma, it = np.zeros(k), 0
    while True:
        w = np.sqrt(wr * wx)
        xp, yp = x * w[:, None], y * w
        m = refs.pls1(xp, yp, k)
        if np.linalg.norm(m["T"], axis=0).min() < 1e-8 * np.linalg.norm(xp):
            raise np.linalg.LinAlgError("no direction left")
        norm = np.linalg.norm(m["T"], axis=0)
        R = m["R"] / norm
        old, gamma = gamma, m["b"][:, 0] * norm
        t = x @ R                             # scores of the rows before weighting
        wr = residual((y if published else yp) - t @ gamma, C)
        wx = leverage(t, C, tol, max_iter)
        it += 1
        change = ((gamma - old) ** 2).sum()
        if it >= max_iter or (change < tol) == published or not np.isfinite(gamma).all():
            break
    if it > 6 and not published:
        raise np.linalg.LinAlgError("the unconverged iteration amplifies rounding errors")
    return {"B": m["coef"], "R": R, "Wr": wr.reshape(-1, 1), "Wx": wx.reshape(-1, 1), "W": (wr * wx).reshape(-1, 1), "it": it}


PRM_SETTINGS = [(4.0, 1e-6, 25), (1.0, 1e-6, 5), (0.3, 1e-6, 4), (1e12, 1e-6, 5), (4.0, 1e-6, 0), (4.0, 1e-6, 1), (4.0, 1e-2, 4), (-2.0, 1e-12, 3), (4.0, 1e4, 4)]


def do_prm(case, c, x, y, new, batches, mode, k):
    for C, tol, limit in PRM_SETTINGS:
        wants = []
        for kid, published in ((None, True), ("prm-one-iteration", False)):
            def ref(x, y):
                px, py = refs.Prep(mode, x), refs.Prep(mode, y)
                X, Y = px(x), py(y)
                m = prm(X, Y, k, C, tol, limit, published)
                out = {"predict " + b: py.back(px(r) @ m["B"]) for b, r in batches.items()}
                out.update({"transform " + b: px(r) @ m["R"] for b, r in batches.items()})
                out.update({n: m[n] for n in ("Wr", "Wx", "W")})
                return out
            wants.append((kid, *reference(ref, x, y)))
        o = build(PRM, mode, k, C=C, tol=tol, max_iter=limit)
        r = outcome(o.initialize, M(x), M(y))
        judge(c, case, "C %g, tol %g, max_iter %d, %s, %d components" % (C, tol, limit, mode, k), o, r, batches, ["Wr", "Wx", "W"], wants, ["transform " + b for b in batches])
        if C == 1e12 and r == ("ok", None):
            def pls(x, y):
                px, py = refs.Prep(mode, x), refs.Prep(mode, y)
                m = refs.pls1(px(x), py(y), k)
                return {b: py.back(px(r) @ m["coef"]) for b, r in batches.items()}
            want, moved = reference(pls, x, y)
            other = wants[1][1]
            if other is not None and want is not None and np.abs(other["Wr"] - 1).max() < 1e-9 and np.abs(other["Wx"] - 1).max() < 1e-9:
                bad = matches({b: A(o.predict(M(r))) for b, r in batches.items()}, want, moved)
                c.check(not bad, "PRM without weighting differs from PLS1 (%s), %s %s" % (bad, mode, case))
            else:
                c.guarded += 1
        c.state(case, mode, k, C, tol, limit)


# ---------------------------------------------------------------- sparse PLS

def sparse(x, y, k, lam, squared):
    """squared: direction vectors divided by their squared norm (recorded finding) instead of their norm."""
    px, py = refs.Prep("standardize", x), refs.Prep("standardize", y)
    X, Y = px(x), py(y)
    n, p = X.shape
    B, W, chosen, yj = np.zeros((p, 1)), [], [], Y
    for i in range(k):
        z = (X.T @ yj)[:, 0]
        if np.median(np.abs(z)) < 1e-9 * np.abs(z).max() or np.linalg.norm(z) < 1e-8 * np.linalg.norm(X.T @ Y):
            raise np.linalg.LinAlgError("the covariances of most columns are rounding errors")
        z = z / np.median(np.abs(z))
        soft = np.maximum(np.abs(z) - lam * np.abs(z).max(), 0) * np.sign(z)
        w = soft / (soft ** 2).sum() ** (1.0 if squared else 0.5)
        W.append(w)
        keep = sorted(set(np.flatnonzero(np.abs(w) > 1e-6)) | set(np.flatnonzero(np.abs(B[:, 0]) > 1e-6)))
        m = refs.nipals(X[:, keep], Y, min(len(keep), i + 1))
        B = np.zeros((p, 1))
        B[keep] = m["coef"]
        yj = Y - X @ B
    W = np.array(W).T
    return {"B": B, "W": W, "predict": lambda r: py.back(px(r) @ B)}


def do_sparsepls(case, c, x, y, new, batches, mode, k):
    for lam in (0.5, 0.0, 0.1, 0.75, 0.9, 0.99):
        wants = []
        for kid, squared in ((None, False), ("sparsepls-norm", True)):
            def ref(x, y):
                px, py = refs.Prep(mode, x), refs.Prep(mode, y)
                m = sparse(px(x), py(y), k, lam, squared)
                out = {"predict " + b: py.back(m["predict"](px(r))) for b, r in batches.items()}
                out.update({"B": m["B"], "W": m["W"]})
                return out
            wants.append((kid, *reference(ref, x, y)))
        o = build(SparsePLS, mode, k, lambda_=lam)
        r = outcome(o.initialize, M(x), M(y))
        judge(c, case, "lambda %g, %s, %d components" % (lam, mode, k), o, r, batches, ["B", "W"], wants)
        if lam == 0 and r == ("ok", None):
            def pls(x, y):
                px, py = refs.Prep("standardize", x), refs.Prep("standardize", y)
                m = refs.pls1(px(x), py(y), k)
                return {b: py.back(px(r) @ m["coef"]) for b, r in batches.items()}
            bad = matches({b: A(o.predict(M(r))) for b, r in batches.items()}, *reference(pls, x, y))
            if (np.abs(A(o.get_matrix("W"))) > 1e-6).all():
                c.check(not bad, "sparse PLS without threshold differs from PLS1 (%s), %s %s" % (bad, mode, case))
        c.state(case, mode, k, lam)
