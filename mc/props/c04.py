"""C04: decompositions, inverses and solves satisfy their equations for the current contents, after any history."""
import itertools

import numpy as np

from wai.ma.core.matrix import Matrix, factory, helper

from ..util import M, A, generic, table, same, close, show, outcome

META = {
    "bounds": "cross-product matrices of 1 to 5 rows and 2 to 14 columns (mostly rank-deficient); all histories of length 3 (quick) / 4 (thorough) over 14 decomposition queries and 14 in-place changes on 3x3, 2x2 and 4x2 matrices, every query "
              "being checked when it occurs and all of them at the end; all 625 2x2 matrices over {-2..2}, all 4096 symmetric 3x3 matrices over {-1,0,1,2}, "
              "12 shapes up to 12x12 and 20x3 with 14 prescribed spectra (condition up to 1e7, repeated, opposite, close values), all shapes up to 6x6 and larger strips at scales 1e-6, 1, 1e6 and reduced rank",
    "oracle": "the defining equations, evaluated with numpy on a shadow copy of the contents",
    "assumptions": ["eigenvector order is only judged where the eigenvalues are real", "inverses of (numerically) singular matrices are not judged"],
}

QUERIES = ["eigenvalues", "eigenvectors", "V", "D", "desc", "asc", "dominant", "vals_desc", "vals_asc", "svd", "sv", "inverse", "pinv", "solve"]


def mutators(s):
    r, p = s
    out = [("set", 0, 0), ("set", r - 1, p - 1), ("set", r - 1, 0), ("set_row", 0), ("set_row", r - 1), ("set_column", 0), ("set_column", p - 1), ("fill",)]
    for n in ("add", "sub", "mul"):
        out.append((n, "row"))
        out.append((n, "col"))
    return out


def mutate(m, sh, op, t):
    """The same in-place change on the matrix and on the shadow; t varies the values along the history."""
    r, p = sh.shape
    if op[0] == "set":
        v = 17.0 + 5 * t
        m.set(op[1], op[2], v)
        sh[op[1], op[2]] = v
    elif op[0] == "set_row":
        v = np.arange(1, p + 1) * 3.0 + t
        v[min(op[1], p - 1)] += 40
        m.set_row(op[1], M([v]))
        sh[op[1], :] = v
    elif op[0] == "set_column":
        v = np.arange(1, r + 1) * 2.0 - t
        v[min(op[1], r - 1)] += 50
        m.set_column(op[1], M(v.reshape(-1, 1)))
        sh[:, op[1]] = v
    elif op[0] == "fill":
        helper.fill_diagonal(m, 21.0 + t)
        np.fill_diagonal(sh, 21.0 + t)
    else:
        v = np.arange(1, (p if op[1] == "row" else r) + 1) * 1.5 + t
        vec = v.reshape(1, -1) if op[1] == "row" else v.reshape(-1, 1)
        getattr(m, op[0] + "_by_vector_modify")(M(vec))
        sh[...] = sh + vec if op[0] == "add" else sh - vec if op[0] == "sub" else sh * vec


def eig_ok(c, sh, vals, vecs, what, unit=True):
    """Columns of vecs are eigenvectors for vals (paired)."""
    n = sh.shape[0]
    sc = max(1e-300, np.max(np.abs(sh)))
    if vals.shape != (n,) or vecs.shape != (n, n):
        c.fail("%s: shapes %s %s" % (what, vals.shape, vecs.shape))
        return
    norms = np.linalg.norm(vecs, axis=0)
    c.check(np.allclose(norms, 1, atol=1e-8), lambda: "%s: eigenvectors without unit length %s for %s" % (what, norms, show(sh)))
    res = sh @ vecs - vecs * vals
    c.check(np.max(np.abs(res)) <= 1e-7 * sc * n, lambda: "%s: A*v != lambda*v for A=%s, lambda=%s, V=%s" % (what, show(sh), vals, show(vecs)))


def spectrum_ok(c, sh, vals, what):
    """vals is the whole spectrum: its power sums are the traces of the powers of A."""
    n = sh.shape[0]
    sc = max(1e-300, np.max(np.abs(sh))) * n
    B = np.eye(n)
    for k in range(1, n + 1):
        B = B @ sh / sc
        c.check(abs(np.sum((vals / sc) ** k) - np.trace(B)) <= 1e-7, lambda: "%s: %s is not the spectrum of %s" % (what, vals, show(sh)))


def independent(sh, vals):
    """Whether n independent eigenvectors must come out."""
    if same(sh, sh.T) and len(sh) <= 4:
        return True
    n = len(vals)
    sc = max(1e-300, np.max(np.abs(sh)))
    return all(abs(vals[i] - vals[j]) > 1e-3 * sc for i in range(n) for j in range(i))


def basis_ok(c, sh, vals, vecs, what):
    if vecs.shape == sh.shape and same(sh, sh.T):
        c.check(np.isrealobj(vals) and np.isrealobj(vecs) and np.abs(vecs.T @ vecs - np.eye(len(sh))).max() < 1e-8,
                lambda: "%s: eigenvectors of a symmetric matrix aren't orthogonal: %s for %s" % (what, show(vecs), show(sh)))
    if vecs.shape == sh.shape and independent(sh, vals):
        c.check(np.linalg.matrix_rank(vecs, tol=1e-6) == len(vals), lambda: "%s: dependent eigenvectors %s for %s" % (what, show(vecs), show(sh)))


def query(c, m, sh, q, what):
    """Runs query q on the matrix and judges the answer for the shadow contents."""
    r, p = sh.shape
    what = "%s [%s of %s]" % (what, q, show(sh))
    sc = max(1e-300, float(np.max(np.abs(sh))))
    square = r == p
    if q in ("eigenvalues", "eigenvectors", "V", "D", "desc", "asc", "dominant", "vals_desc", "vals_asc"):
        if not square:
            return
        ref = np.linalg.eigvals(sh)
        real = np.isrealobj(ref) or np.max(np.abs(ref.imag)) == 0
        srt = np.sort(ref.real)
        gap = r == 1 or np.min(np.abs(np.diff(srt))) > 1e-5 * sc
        if real:
            c.check(np.isrealobj(m.get_eigenvalues().data) and np.isrealobj(m.get_eigenvectors().data), lambda: "%s: complex results although all eigenvalues are real" % what)
        if q == "eigenvalues":
            v = A(m.get_eigenvalues())
            c.check(v.shape == (r, 1), "%s: shape %s" % (what, v.shape))
            spectrum_ok(c, sh, v[:, 0], what)
        elif q in ("eigenvectors", "V"):
            V = A(m.get_eigenvectors() if q == "eigenvectors" else m.get_eigenvalue_decomposition_V())
            eig_ok(c, sh, A(m.get_eigenvalues())[:, 0], V, what)
            basis_ok(c, sh, A(m.get_eigenvalues())[:, 0], V, what)
        elif q == "D":
            D = A(m.get_eigenvalue_decomposition_D())
            V = A(m.get_eigenvalue_decomposition_V())
            c.check(D.shape == (r, r) and same(D, np.diag(np.diag(D))), lambda: "%s: D is not diagonal: %s" % (what, show(D)))
            eig_ok(c, sh, np.diag(D), V, what)
            spectrum_ok(c, sh, np.diag(D), what)
        elif not real:
            return
        elif q in ("vals_desc", "vals_asc"):
            v = A(m.get_eigenvalues_sorted_descending() if q == "vals_desc" else m.get_eigenvalues_sorted_ascending())
            want = srt[::-1] if q == "vals_desc" else srt
            c.check(v.shape == (r, 1) and close(v[:, 0].real, want, 1e-6, sc), lambda: "%s: got %s expected %s" % (what, v.T, want))
        elif q in ("desc", "asc"):
            V = A(m.get_eigenvectors_sorted_descending() if q == "desc" else m.get_eigenvectors_sorted_ascending())
            want = srt[::-1] if q == "desc" else srt
            V2 = A(m.get_eigenvectors(True)) if q == "desc" else V
            if gap:
                eig_ok(c, sh, want, V, what)
                eig_ok(c, sh, want, V2, what + " sort_dominance")
            else:
                lam = np.array([(V[:, i].conj() @ sh @ V[:, i]).real for i in range(r)])
                if same(sh, sh.T):
                    eig_ok(c, sh, lam, V, what)
                    d = np.diff(lam)
                    c.check((d <= 1e-6 * sc).all() if q == "desc" else (d >= -1e-6 * sc).all(), lambda: "%s: order %s" % (what, lam))
            if same(sh, sh.T) or gap:
                basis_ok(c, sh, want, V, what)
        elif q == "dominant":
            v = A(m.get_dominant_eigenvector())
            c.check(v.shape == (r, 1), "%s: shape %s" % (what, v.shape))
            c.check(abs(np.linalg.norm(v) - 1) < 1e-8 and np.max(np.abs(sh @ v - srt[-1] * v)) <= 1e-5 * sc * r, lambda: "%s: got %s" % (what, v.T))
    elif q in ("svd", "sv"):
        k = min(r, p)
        if q == "sv":
            s = A(m.get_singular_values())
            want = np.linalg.svd(sh, compute_uv=False)
            c.check(s.shape == (k, 1) and close(s[:, 0], want, 1e-7, sc), lambda: "%s: got %s expected %s" % (what, s.T, want))
            return
        U, S, V = A(m.svd_U()), A(m.svd_S()), A(m.svd_V())
        if U.shape != (r, k) or S.shape != (k, k) or V.shape != (k, p):
            c.fail("%s: shapes %s %s %s" % (what, U.shape, S.shape, V.shape))
            return
        c.check(close(U @ S @ V, sh, 1e-8, sc), lambda: "%s: U*S*V = %s" % (what, show(U @ S @ V)))
        c.check(close(U.T @ U, np.eye(k), 1e-8) and close(V @ V.T, np.eye(k), 1e-8), "%s: U or V not orthonormal" % what)
        d = np.diag(S)
        c.check(same(S, np.diag(d)) and (d >= 0).all() and (np.diff(d) <= 0).all(), lambda: "%s: S = %s" % (what, show(S)))
    elif q in ("inverse", "pinv"):
        s = np.linalg.svd(sh, compute_uv=False)
        if s[0] == 0 or s[-1] < 1e-7 * s[0]:
            if q == "inverse":
                return
            ref = np.linalg.pinv(sh)
            if s[0] > 0 and np.max(np.abs(ref)) * s[0] > 1e7:
                return
        cond = 1.0 if s[0] == 0 or s[-1] < 1e-7 * s[0] else s[0] / s[-1]
        tol = 1e-10 * max(cond, 10)
        X = A(m.inverse() if q == "inverse" else m.pseudo_inverse())
        if X.shape != (p, r):
            c.fail("%s: shape %s" % (what, X.shape))
            return
        xs = max(1e-300, float(np.max(np.abs(X))))
        AX, XA = sh @ X, X @ sh
        if square and q == "inverse":
            c.check(close(AX, np.eye(r), tol, 1.0) and close(XA, np.eye(r), tol, 1.0), lambda: "%s: A*X = %s" % (what, show(AX)))
        c.check(close(AX @ sh, sh, tol, sc) and close(XA @ X, X, tol, xs) and close(AX, AX.T, tol, 1.0) and close(XA, XA.T, tol, 1.0),
                lambda: "%s: Penrose conditions violated by %s" % (what, show(X)))
        if cond > 1:
            u, d, vt = np.linalg.svd(sh, full_matrices=False)
            ref = (vt.T / d) @ u.T
            c.check(close(X, ref, max(tol, 1e-9), np.max(np.abs(ref))), lambda: "%s: %s differs from the inverse on the range %s" % (what, show(X), show(ref)))
        if q == "inverse":
            H = A(helper.inverse(m))
            c.check(same(H, X), "%s: helper.inverse differs" % what)
    elif q == "solve":
        if not square:
            return
        s = np.linalg.svd(sh, compute_uv=False)
        if s[0] == 0 or s[-1] < 1e-7 * s[0]:
            return
        for k in (1, 2):
            b = generic(r, k, 5)
            X = A(helper.solve(m, M(b)))
            c.check(X.shape == (r, k) and close(sh @ X, b, 1e-10 * max(10, s[0] / s[-1])), lambda: "%s: A*x = %s, b = %s" % (what, show(sh @ X), show(b)))


BASES = {
    (3, 3): np.array([[11.0, 1.0, 2.0], [0.5, 22.0, 1.0], [1.0, 3.0, 37.0]]),
    (2, 2): np.array([[4.0, 1.0], [1.0, 9.0]]),
    (4, 2): np.array([[4.0, 1.0], [1.0, 9.0], [2.0, -3.0], [0.5, 7.0]]),
}


SPECTRAL = [(2, 2), (3, 3), (4, 4), (5, 5), (8, 8), (12, 12), (5, 2), (6, 4), (9, 5), (2, 6), (4, 7), (20, 3)]
SPECTRA = [     # functions of the index: well to badly conditioned, with repeated, opposite and nearly equal values
    lambda i: 10.0 ** -i, lambda i: 10.0 ** (-2 * (i % 4)), lambda i: 1.0 if i == 0 else 1e-3, lambda i: 1.0 if i == 0 else 2e-5, lambda i: 1e6 if i == 0 else 3.0,
    lambda i: 3.0, lambda i: 3.0 - 2 * (i % 2), lambda i: (-1.0) ** i * (1 + i // 2), lambda i: 5.0 + i * 1e-4, lambda i: -1.0 - i, lambda i: 4.0 ** (i % 3), lambda i: (i + 1) * 1e-5,
    lambda i: -(2.0 ** -i), lambda i: 7.0 - 3 * i,
]


def basis(n, seed):
    return np.linalg.qr(generic(n, n, seed) / 3 + np.eye(n))[0]


def events(s):
    return [("q", q) for q in QUERIES if s[0] == s[1] or q in ("svd", "sv", "inverse", "pinv")] + [("m", op) for op in mutators(s)]


def cases(tier):
    for vals in itertools.product(range(-2, 3), repeat=2):
        yield {"k": "int2", "v": vals}
    for vals in itertools.product((-1, 0, 1, 2), repeat=3):
        yield {"k": "sym3", "v": vals}
    for r in range(1, 7):
        for p in range(1, 7):
            yield {"k": "shape", "s": (r, p)}
    for s in ((1, 20), (20, 1), (12, 5), (5, 12), (12, 12), (30, 30), (40, 7), (2, 60)):
        yield {"k": "shape", "s": s}
    for n in (1, 2, 3, 5):          # cross-product matrices, mostly of deficient rank
        for p in (2, 3, 4, 6, 9, 14):
            for e in (0.0, 0.01):
                yield {"k": "gram", "s": (n, p, e)}
    for r, p in SPECTRAL:
        for i in range(len(SPECTRA)):
            yield {"k": "spectrum", "s": (r, p), "i": i}
    depth = 4 if tier == "thorough" else 3
    for s in BASES:
        ev = events(s)
        for i in range(len(ev)):
            for j in range(len(ev)):
                yield {"k": "hist", "s": s, "i": i, "j": j, "depth": depth}


def everything(c, a, what):
    sh = np.array(a, float)
    for order in (1, -1):
        m = M(sh)
        for q in QUERIES[::order]:
            query(c, m, sh, q, what)
        c.check(same(m.data, sh), "%s: contents changed" % what)
    c.trace()
    c.state(what, sh.tobytes())


def run_case(case, c):
    k = case["k"]
    c.sample(case)
    if k == "int2":
        for w in itertools.product(range(-2, 3), repeat=2):
            everything(c, [list(case["v"]), list(w)], "int2")
    elif k == "sym3":
        a, b, d = case["v"]
        for e, f, g in itertools.product((-1, 0, 1, 2), repeat=3):
            everything(c, [[a, b, d], [b, e, f], [d, f, g]], "sym3")
    elif k == "gram":
        n, p, e = case["s"]
        for seed in range(3):
            x = generic(n, p, seed) / 3
            everything(c, x.T @ x + e * np.eye(p), "gram")
            x = table(n, p, seed, -1, 1)
            everything(c, x.T @ x + e * np.eye(p), "gram")
    elif k == "spectrum":
        r, p = case["s"]
        n = min(r, p)
        d = np.array([SPECTRA[case["i"]](i) for i in range(n)])
        for seed in range(2):
            u, v = basis(r, seed + 1)[:, :n], basis(p, seed + 11)[:, :n]
            everything(c, (u * d) @ v.T, "singular values %s" % d)
            if r == p:
                q = (u * d) @ u.T
                everything(c, (q + q.T) / 2, "symmetric with eigenvalues %s" % d)
                w = np.eye(n) + 0.3 * np.triu(generic(n, n, seed) / 9, 1)
                if len(set(d)) == n and np.diff(np.sort(d)).min() > 1e-3 * np.abs(d).max():
                    everything(c, w @ np.diag(d) @ np.linalg.inv(w), "triangular with eigenvalues %s" % d)
    elif k == "shape":
        r, p = case["s"]
        g = generic(r, p, 2)
        for scale in (1.0, 1e-6, 1e6):
            everything(c, g * scale, "shape")
        n = min(r, p)
        everything(c, np.eye(r, p), "eye")
        everything(c, np.diag(np.arange(n, 0, -1.0)) if r == p else np.eye(r, p)[:, ::-1], "diag")
        everything(c, np.outer(np.arange(1, r + 1.0), np.arange(1, p + 1.0)), "rank1")
        if r == p:
            everything(c, g + g.T, "symmetric")
            everything(c, np.triu(np.abs(g)) + np.diag(np.arange(r) * 20.0), "triangular")
            everything(c, np.eye(r) * 3 + (np.arange(r)[:, None] == np.arange(r)[None, ::-1]), "persymmetric")
    else:
        s = tuple(case["s"])
        ev = events(s)
        for rest in itertools.product(range(len(ev)), repeat=case["depth"] - 2):
            hist = [ev[case["i"]], ev[case["j"]]] + [ev[x] for x in rest]
            if hist[-1][0] == "q" and len(hist) > 2:
                pass
            sh = np.array(BASES[s])
            m = M(sh)
            what = "history %s" % (hist,)
            for t, (kind, x) in enumerate(hist):
                if kind == "q":
                    query(c, m, sh, x, what + " step %d" % t)
                else:
                    mutate(m, sh, x, t)
                c.check(same(m.data, sh), lambda: "%s: contents %s, expected %s" % (what, show(m.data), show(sh)))
                c.state(s, sh.tobytes(), tuple(sorted({y for kk, y in hist[:t + 1] if kk == "q"})))
            # at the end only the queries whose cache could be stale, each once
            if hist[-1][0] == "m":
                for q in QUERIES:
                    query(c, m, sh, q, what + " end")
            else:
                for q in ("D", "desc", "svd", "sv"):
                    query(c, m, sh, q, what + " end")
            c.trace()
            if c.fails:
                return
