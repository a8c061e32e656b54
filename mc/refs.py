"""Independent numpy reference models, written from the published definitions."""
import math

import numpy as np


class Prep:
    """none / center / standardize with statistics of the training data (constant columns keep deviation 1)."""

    def __init__(self, mode, a):
        self.mean = a.mean(axis=0) if mode != "none" else np.zeros(a.shape[1])
        if mode == "standardize":
            sd = a.std(axis=0, ddof=1)
            self.sd = np.where((a == a[0]).all(axis=0), 1.0, sd)
        else:
            self.sd = np.ones(a.shape[1])

    def __call__(self, a):
        return (a - self.mean) / self.sd

    def back(self, a):
        return a * self.sd + self.mean


def pls1(x, y, k):
    """Orthogonal-scores PLS1 for one response (no centring of its own)."""
    x, y = x.copy(), y.reshape(-1, 1)
    n, p = x.shape
    W, P, T, b = np.zeros((p, k)), np.zeros((p, k)), np.zeros((n, k)), np.zeros((k, 1))
    for i in range(k):
        w = x.T @ y
        w = w / np.linalg.norm(w)
        t = x @ w
        tt = (t.T @ t).item()
        pl = x.T @ t / tt
        b[i] = (t.T @ y).item() / tt
        W[:, [i]], P[:, [i]], T[:, [i]] = w, pl, t
        x = x - t @ pl.T
    R = W @ np.linalg.inv(P.T @ W)
    return {"W": W, "P": P, "T": T, "b": b, "R": R, "coef": R @ b}


def dipls(xs, xt, xu, ys, yt, mode, lam, k, prep, centres=None):
    """Domain-invariant PLS; centres = (X, source, target) means to use instead of those of the data."""
    ns, nt = len(xs), len(xt)
    allx = np.vstack([xs, xt] + ([xu] if mode == "semisupervised" else []))
    ally = ys if mode == "unsupervised" else np.vstack([ys, yt])
    px, py = Prep(prep, allx), Prep(prep, ally)
    a, y = px(allx), py(ally)
    Xs, Xt = a[:ns], a[ns:]
    X = {"unsupervised": Xs, "supervised": a, "semisupervised": a[:ns + nt]}[mode]
    c = centres or (X.mean(axis=0), Xs.mean(axis=0), Xt.mean(axis=0))
    X, Xs, Xt = X - c[0], Xs - c[1], Xt - c[2]
    b0 = float(y.mean())
    y = y - b0
    I, cond = np.eye(X.shape[1]), 1.0
    size = [np.linalg.norm(a) for a in (X, Xs, Xt)]
    W, P, C, T, domain = [], [], [], [], {"Ts": [], "Tt": [], "Ps": [], "Pt": []}
    for _ in range(k):
        yy = (y.T @ y).item()
        D = Xs.T @ Xs / (ns - 1) - Xt.T @ Xt / (nt - 1)
        G = I + lam / (2 * yy) * D
        cond = max(cond, np.linalg.cond(G))
        w = (y.T @ X / yy) @ np.linalg.inv(G)
        w = w.T / np.linalg.norm(w)
        t, ts, tt = X @ w, Xs @ w, Xt @ w
        p, ps, pt = (t.T @ X) / (t.T @ t).item(), (ts.T @ Xs) / (ts.T @ ts).item(), (tt.T @ Xt) / (tt.T @ tt).item()
        ca = (y.T @ t).item() / (t.T @ t).item()
        X, Xs, Xt, y = X - t @ p, Xs - ts @ ps, Xt - tt @ pt, y - t * ca
        W.append(w[:, 0]), P.append(p[0]), C.append(ca), T.append(t[:, 0])
        if np.linalg.norm(t) < 1e-9 * size[0]:
            raise np.linalg.LinAlgError("no direction left")
        for vec, total in ((ps, size[1]), (pt, size[2])):
            if np.linalg.norm(ts if vec is ps else tt) < 1e-9 * total:
                vec[:] = np.nan              # the rounding noise left of a domain has no loadings
        for name, vec in (("Ts", ts[:, 0]), ("Tt", tt[:, 0]), ("Ps", ps[0]), ("Pt", pt[0])):
            domain[name].append(vec)
    W, P, C, T = np.array(W).T, np.array(P).T, np.array(C).reshape(-1, 1), np.array(T).T
    b = W @ np.linalg.inv(P.T @ W) @ C

    def predict(new):
        return py.back((px(new) - (c[2] if mode == "unsupervised" else c[0])) @ b + b0)

    def transform(new):
        return (px(new) - c[0]) @ W
    return {"predict": predict, "transform": transform, "W": W, "P": P, "T": T, "b": b, "centres": c, "cond": cond, "domain": {n: np.array(v).T for n, v in domain.items()}}


def dominant(m):
    """The dominant left singular vector and the ratio of the second singular value to the first."""
    u, s, _ = np.linalg.svd(m, full_matrices=False)
    return u[:, [0]], (s[1] / s[0] if len(s) > 1 and s[0] > 0 else 0.0)


def nipals(x, y, k, canonical=False, cca=False, norm_y=False, tol=1e-6, max_iter=500):
    """Two-block NIPALS on standardised data; cca uses pseudo-inverse weights."""
    px, py = Prep("standardize", x), Prep("standardize", y)
    X, Y = px(x), py(y)
    q = Y.shape[1]
    T, U, P, Q, W, C = [], [], [], [], [], []
    for _ in range(k):
        live = [i for i in range(Y.shape[1]) if (Y[:, i] ** 2).sum() > 1e-16]
        u, old = Y[:, [live[0] if live else 0]], np.zeros((X.shape[1], 1))
        xi, yi = (np.linalg.pinv(X, 2e-10), np.linalg.pinv(Y, 2e-10)) if cca else (None, None)
        it = 0
        while True:
            w = xi @ u if cca else X.T @ u / (u ** 2).sum()
            w = w / np.linalg.norm(w)
            t = X @ w
            c = yi @ t if cca else Y.T @ t / (t ** 2).sum()
            if norm_y:
                c = c / np.linalg.norm(c)
            u = Y @ c / (c ** 2).sum()
            if ((w - old) ** 2).sum() < tol or q == 1 or it >= max_iter:
                break
            old = w
            it += 1
        p = X.T @ t / (t ** 2).sum()
        X = X - t @ p.T
        s = u if canonical else t
        qq = Y.T @ s / (s ** 2).sum()
        Y = Y - s @ qq.T
        for lst, vec in ((T, t), (U, u), (P, p), (Q, qq), (W, w), (C, c)):
            lst.append(vec[:, 0])
    T, U, P, Q, W, C = [np.array(v).T for v in (T, U, P, Q, W, C)]
    R = W @ np.linalg.pinv(P.T @ W)
    coef = R @ Q.T * py.sd
    S = C @ np.linalg.pinv(Q.T @ C) if q > 1 else np.ones((1, 1))
    return {"ytransform": lambda new: py(new) @ S, "T": T, "U": U, "P": P, "Q": Q, "coef": coef, "predict": lambda new: px(new) @ coef + py.mean, "transform": lambda new: px(new) @ R}


def nipals_limit(x, y, k):
    """Regression NIPALS at convergence: every weight is the dominant left singular vector of X'Y."""
    px, py = Prep("standardize", x), Prep("standardize", y)
    X, Y = px(x), py(y)
    W, P, Q, worst = [], [], [], 0.0
    for _ in range(k):
        w, ratio = dominant(X.T @ Y)
        worst = max(worst, ratio)
        t = X @ w
        tt = (t ** 2).sum()
        p, q = X.T @ t / tt, Y.T @ t / tt
        X, Y = X - t @ p.T, Y - t @ q.T
        W.append(w[:, 0]), P.append(p[:, 0]), Q.append(q[:, 0])
    W, P, Q = np.array(W).T, np.array(P).T, np.array(Q).T
    R = W @ np.linalg.pinv(P.T @ W)
    return {"predict": lambda new: px(new) @ R @ Q.T * py.sd + py.mean, "transform": lambda new: px(new) @ R, "gap": worst}


def kernel_matrix(name, gamma, a, b):
    if name == "linear":
        return a @ b.T
    if name == "poly":
        return (gamma * (a @ b.T) + 0.0) ** 3
    d = np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(axis=2))
    return np.exp(-gamma * d)


def kernel_pls(x, y, k, kernel, centred=True):
    """Rosipal and Trejo's kernel PLS at convergence; centred=False omits the training means in the test kernel."""
    n = len(x)
    mx, my = x.mean(axis=0), y.mean(axis=0)
    X, Y = x - mx, y - my
    J = np.eye(n) - 1.0 / n
    raw = kernel(X, X)
    K0 = J @ raw @ J
    K, T, U, worst = K0.copy(), [], [], 0.0
    for _ in range(k):
        e, s, _ = np.linalg.svd(Y.T @ K @ Y)       # the fixpoint of q = Y'KY q
        worst = max(worst, s[1] / s[0] if len(s) > 1 else 0.0)
        u = Y @ e[:, [0]]
        u = u / np.linalg.norm(u)
        t = K @ u
        t = t / np.linalg.norm(t)
        D = np.eye(n) - t @ t.T
        K, Y = D @ K @ D, Y - t @ (t.T @ Y)
        T.append(t[:, 0]), U.append(u[:, 0])
    T, U = np.array(T).T, np.array(U).T
    B = U @ np.linalg.inv(T.T @ K0 @ U) @ T.T @ (y - my)

    def test(new):
        Kt = kernel(new - mx, X)
        return (Kt - (raw.mean(axis=0) if centred else 0)) @ J
    return {"predict": lambda new: test(new) @ B + my, "transform": lambda new: test(new) @ U, "T": T, "U": U, "gap": worst, "fit": T @ (T.T @ (y - my)) + my}


def opls(x, y, k, sequential):
    """Orthogonal signal correction; returns the filter and what it removes."""
    X, Ws, Ps, Ts = x.copy(), [], [], []
    w = X.T @ y
    w = w / np.linalg.norm(w)
    for _ in range(k):
        t = X @ w
        p = X.T @ t / (t ** 2).sum()
        wo = p - w * (w.T @ p).item()
        wo = wo / np.linalg.norm(wo)
        to = X @ wo
        po = X.T @ to / (to ** 2).sum()
        X = X - to @ po.T
        Ws.append(wo), Ps.append(po), Ts.append(to)

    def filt(new):
        if not sequential:
            return new - new @ np.hstack(Ws) @ np.hstack(Ps).T
        for wo, po in zip(Ws, Ps):
            new = new - new @ wo @ po.T
        return new
    return {"filter": filt, "W": np.hstack(Ws), "P": np.hstack(Ps), "T": np.hstack(Ts), "X": X}
