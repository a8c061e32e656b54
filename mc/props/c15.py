"""C15: FastICA against its definition, iteration by iteration, and its contrast functions."""
import itertools

import numpy as np

from wai.ma.algorithm.ica import FastICA
from wai.ma.algorithm.ica._FastICA import Algorithm
from wai.ma.algorithm.ica.approxfun import Cube, Exponential, LogCosH

from ..designs import regress, VARIANTS
from ..util import M, A, generic, table, show, close

META = {
    "bounds": "data: 9 shapes x 11 variants, and mixtures (4 mixing matrices) of 2 to 4 exactly independent sources (full factorial designs) x deflation/parallel x 4 contrast functions x whitening on/off x every number of components up to the rank (and more than there are columns) x 0 to 4 iterations and runs to convergence with two tolerances; contrast functions on all vectors of length <= 3 over 17 values from -1e3 to 1e3 (single values to 1e150) and 32 tables, 9 slopes",
    "oracle": "definition of whitening, unmixing and reconstruction in numpy; a numpy FastICA continuing from the starting vectors for exactly the same number of iterations; the known sources of the mixtures; closed-form contrast functions and derivatives",
    "assumptions": ["iterates are compared where moving the whitened data by 1e-10 (runs to convergence: 1e-8) moves them by less than 1e-5 and they were found by the same number of iterations", "runs without whitening need at least as many rows as columns (the iteration is not defined otherwise)"],
}

FUNS = {
    "logcosh": (LogCosH, lambda x: (np.tanh(x), 1 - np.tanh(x) ** 2)),
    "logcosh 1.5": (lambda: LogCosH(1.5), lambda x: (np.tanh(1.5 * x), 1.5 * (1 - np.tanh(1.5 * x) ** 2))),
    "cube": (Cube, lambda x: (x ** 3, 3 * x ** 2)),
    "exp": (Exponential, lambda x: (x * np.exp(-x ** 2 / 2), (1 - x ** 2) * np.exp(-x ** 2 / 2))),
}
SHAPES = [(6, 2), (8, 3), (12, 4), (20, 3), (5, 5), (4, 6), (5, 1), (30, 2), (120, 3)]
SOURCES = {
    2: [[-2, -1, 0, 1, 2], [-1, 1, 0]],
    3: [[-1, 1], [-2, -1, 0, 1, 2], [0, 0, 0, 1, -1, 5, -5]],
    4: [[-1, 1], [0, 0, 0, 3, -3], [-2, -1, 0, 1, 2], [0, 1, 3]],
}
VALUES = [0.0, 1e-12, -1e-12, 0.3, -0.3, 1.0, -1.0, 2.0, -2.0, 7.5, -7.5, 40.0, -40.0, 1e3, -1e3, 1e-150, 0.5]


def cases(tier):
    for f in FUNS:
        for n in (1, 2, 3):
            yield {"fun": f, "len": n}
        yield {"fun": f, "len": 0}
    for alg in ("DEFLATION", "PARALLEL"):
        for f in FUNS:
            for k in SOURCES:
                for seed in range(16 if tier == "thorough" else 4):
                    yield {"alg": alg, "f": f, "sources": k, "seed": seed}
            for n, p in SHAPES:
                for var in VARIANTS:
                    if p == 1 and var in ("const", "dup"):
                        continue
                    for seed in range(4 if tier == "thorough" else 1):
                        yield {"alg": alg, "f": f, "n": n, "p": p, "var": var, "seed": seed}


def contrast(case, c):
    """g elementwise and the row means of g'."""
    make, want = FUNS[case["fun"]]
    if case["len"]:
        tables = []
        for vec in itertools.product(VALUES, repeat=case["len"]):
            tables += [np.array([vec]), np.array([vec]).T]
    else:
        tables = [generic(r, q, 3 * r + q, s) for r in (1, 2, 5, 13) for q in (1, 4, 9, 40) for s in (1e-3, 1.0)]
        tables += [np.array([[v]]) for v in (1e100, -1e100, 1e150 if case["fun"] != "cube" else 1e90, 1e-300)]
    slopes = (1.0, 0.5, 2.0, 3.0, -1.0, -0.7, 0.0, 1e-3, 40.0) if case["fun"] == "logcosh" else (None,)
    for t in tables:
        for a in slopes:
            f = make() if a is None else LogCosH(a)
            with np.errstate(all="ignore"):
                g, d = want(t) if a is None else (np.tanh(a * t), a * (1 - np.tanh(a * t) ** 2))
            m = M(t)
            got = f.apply(m)
            c.tick()
            c.trace()
            g1, d1 = A(got[0]), A(got[1])
            dm = d.mean(axis=1, keepdims=True)
            scale = np.abs(d).max(axis=1, keepdims=True)
            ok = g1.shape == t.shape and d1.shape == (len(t), 1) and (np.abs(g1 - g) <= 1e-12 * np.abs(g) + 1e-300).all() and (np.abs(d1 - dm) <= 1e-12 * scale + 1e-15).all()
            if not ok:
                c.fail("%s (slope %s) of %s: %s and %s, expected %s and %s" % (case["fun"], a, show(t), show(g1), show(d1), show(g), show(dm)))
            if not np.array_equal(m.data, t):
                c.fail("%s changes its argument" % case["fun"])
    c.state(case)


def sym(W):
    u, _, vt = np.linalg.svd(W)
    return u @ vt


def iterate(X1, W0, fun, alg, limit, tol, transposed=False):
    """The published iterations on whitened data (variables in rows); the rows of the result are the unmixing vectors;
    with the accuracy that cancellation in the decorrelation leaves, and the numbers of iterations needed."""
    n = X1.shape[1]
    left, counts = 1.0, []
    if alg == "DEFLATION":
        W = []
        for w in W0:
            w = w / np.linalg.norm(w)
            worst = 1.0
            i = 0
            while i < limit:
                g, d = fun(w @ X1)
                w1 = (X1 * g).mean(axis=1) - d.mean() * w
                size = max(np.abs((X1 * g).mean(axis=1)).max(), np.abs(d.mean()), np.abs(X1).max() * np.abs(g).max())
                for v in W:
                    w1 = w1 - v * (w1 @ v)
                worst = min(worst, np.linalg.norm(w1) / size)
                w1 = w1 / np.linalg.norm(w1)
                lim = abs(abs(w1 @ w) - 1)
                w = w1
                i += 1
                if lim < tol:
                    break
            counts.append(i)
            W.append(w)
            left *= worst
        return np.array(W), left, counts
    W = sym(W0)
    i = 0
    while i < limit:
        g, d = fun((W.T if transposed else W) @ X1)
        W1 = g @ X1.T / n - d.mean(axis=1)[:, None] * W
        sv = np.linalg.svd(W1, compute_uv=False)
        left = min(left, (sv[-1] / sv[0]) ** 2 * sv[0] / (np.abs(X1).max() * np.abs(g).max()))
        if len(sv) > 1:             # nearly equal ones make the eigenvectors ill-conditioned
            left = min(left, np.abs(np.diff(sv)).min() / sv[0])
        W1 = sym(W1)
        lim = np.abs(np.abs(np.diag(W1 @ W.T)) - 1).max()
        W = W1
        i += 1
        if lim < tol:
            break
    counts.append(i)
    return W, left, counts


def run_case(case, c):
    c.sample(case)
    if "fun" in case:
        return contrast(case, c)
    make, fun = FUNS[case["f"]]
    alg = case["alg"]
    src = None
    if "sources" in case:
        src = np.array(list(itertools.product(*SOURCES[case["sources"]])), float)
        q = case["sources"]
        x = src @ (generic(q, q, case["seed"] + 60) / 3) + 5
        ks = [q, q + 2]
    else:
        x = regress(case["n"], case["p"], 1, case["var"], 50 * case["seed"])[0]
        sv = np.linalg.svd(x - x.mean(axis=0), compute_uv=False)
        r = int((sv > 1e-9 * sv[0]).sum()) if sv[0] > 0 else 0
        ks = list(range(1, r + 1))
        if r == x.shape[1] <= len(x):
            ks.append(r + 3)
    for whiten in (True, False):
        if not whiten and len(x) < x.shape[1]:
            continue
        for k in (ks if whiten else [2, 0]):
            if k == 0:                  # data that are white already
                q, r_ = np.linalg.qr(x - x.mean(axis=0))
                if np.abs(np.diag(r_)).min() < 1e-6 * np.abs(r_).max():
                    continue
                x = q * np.sqrt(len(x))
                k = 2

            def run(limit, tol, k=k, x=x):
                o = FastICA()
                o.algorithm, o.fun, o.whiten, o.num_components, o.max_iter, o.tol = Algorithm[alg], make(), whiten, k, limit, tol
                s = o.transform(M(x))
                return o, A(s)
            judge(case, c, x, whiten, k, run, fun, alg, src)


def real(a):
    return a.real if not np.isrealobj(a) and not a.imag.any() else a


def judge(case, c, x, whiten, k, run, fun, alg, src):
    n, p = x.shape
    kk = min(k, n, p) if whiten else min(n, p)
    label = "FastICA %s, whiten=%s, %d components" % (case, whiten, k)
    xc = x - x.mean(axis=0) if whiten else x
    u, sv, vt = np.linalg.svd(xc, full_matrices=False)
    low = (u[:, :kk] * sv[:kk]) @ vt[:kk] + (x.mean(axis=0) if whiten else 0)
    gap = np.inf if kk >= len(sv) else (sv[kk - 1] - sv[kk]) / sv[0]
    regular = gap > 1e-6
    start = None
    for limit, tol in ((0, 0.0), (1, 0.0), (2, 0.0), (3, 0.0), (4, 0.0), (500, 1e-4), (60, 1e-9)):
        where = "%s, %d iterations, tol %g" % (label, limit, tol)
        try:
            o, s = run(limit, tol)
        except np.linalg.LinAlgError:
            if whiten:
                raise
            c.guarded += 1          # data that are far from white: the updates of different components coincide
            continue
        s, comp, mix, rec, held = real(s), real(A(o.components)), real(A(o.mixing)), real(A(o.reconstruct())), real(A(o.sources))
        c.tick()
        c.trace()
        if s.shape != (n, kk) or comp.shape != (kk, p) or mix.shape != (p, kk) or rec.shape != x.shape:
            c.fail("%s: shapes %s %s %s %s" % (where, s.shape, comp.shape, mix.shape, rec.shape))
            return
        if not np.isfinite(s).all():
            c.guarded += 1         # the contrast overflowed or an update vanished
            continue
        if not np.isrealobj(s):
            c.fail("%s: complex sources" % where)
            return
        if not np.array_equal(s, held):
            c.fail("%s: recorded sources differ from the returned ones" % where)
        size = np.abs(xc).max()
        if np.abs(s - xc @ comp.T).max() > 1e-9 * size * np.abs(comp).sum(axis=1).max():
            c.fail("%s: sources %s aren't the components applied to the centred data %s" % (where, show(s), show(xc @ comp.T)))
        cs = np.linalg.svd(comp, compute_uv=False)
        cond = cs[0] / max(cs[-1], 1e-300)
        if cond < 1e6:
            pin = np.linalg.pinv(comp)
            if np.abs(mix - pin).max() > 1e-13 * cond ** 2 * np.abs(pin).max() + 1e-9 * np.abs(pin).max():
                c.fail("%s: mixing %s isn't the inverse of the components %s" % (where, show(mix), show(pin)))
            if regular and np.abs(rec - low).max() > (1e-8 + 1e-12 * cond) * max(np.abs(x).max(), 1e-300):
                c.fail("%s: reconstruction %s, retained part of the data %s" % (where, show(rec), show(low)))
        else:
            c.guarded += 1
        if not whiten or regular:
            base = np.diag(1 / sv[:kk]) @ vt[:kk] if whiten else np.eye(p)
            if alg == "PARALLEL":
                held = real(A(o.whitening)) if whiten else np.eye(p)
                base = held if held.shape == base.shape and np.allclose(np.abs(held), np.abs(base), rtol=1e-5, atol=1e-8 * np.abs(base).max()) else base
            X1 = base @ xc.T * (np.sqrt(n) if whiten else 1.0)
            W = comp @ np.linalg.pinv(base)
            if limit == 0:
                start = W
            ok = follow(c, where, X1, start, W, fun, alg, limit, tol)
            gram = s.T @ s if whiten else comp @ comp.T
            if ok and (limit or alg == "PARALLEL") and np.abs(gram - np.eye(kk)).max() > 1e-7:
                c.fail("%s: sources (components without whitening) aren't orthonormal: %s" % (where, show(gram)))
        if src is not None and limit == 500 and whiten:
            cc = np.abs(np.corrcoef(s.T, src.T)[:kk, kk:])
            c.tick()
            if cc.max(axis=0).min() < 0.99 or cc.max(axis=1).min() < 0.99:
                (c.fail if alg != "PARALLEL" else lambda m: known(c, m))("%s: the independent sources aren't recovered, correlations %s" % (where, show(cc)))
    c.state(case, whiten, k)


def known(c, m):
    c.known("ica-parallel-transposed", m)


def follow(c, where, X1, start, W, fun, alg, limit, tol):
    """The unmixing matrix after some iterations is that of the published algorithm; False if the iteration breaks down."""
    if start is None:
        return False
    c.tick()
    sign = np.where(np.arange(X1.size).reshape(X1.shape) % 3 == 1, -1, 1)
    refs = []
    for transposed in ((False, True) if alg == "PARALLEL" else (False,)):
        with np.errstate(all="ignore"):
            try:
                want, left, counts = iterate(X1, start, fun, alg, limit, tol, transposed)
                amp = 0.0
                for d in (1e-10,) if limit < 10 else (1e-8, -1e-10, 1e-12):
                    moved, _, other = iterate(X1 * (1 + d * sign), start, fun, alg, limit, tol, transposed)
                    amp = max(amp, np.abs(want - moved).max() if other == counts else np.inf)
            except np.linalg.LinAlgError:
                left = 0.0
        if not left > 1e-7:
            c.guarded += 1
            return False
        if limit > 10 and max(counts) >= limit:
            amp = np.inf                # never converged
        refs.append((want, amp))
    if not max(a for _, a in refs) < 1e-5:
        c.guarded += 1
        return left > 1e-5
    good = [np.abs(W - want).max() <= 1e-7 + 10 * amp for want, amp in refs]
    if not good[0]:
        if good[-1]:
            known(c, where)
        else:
            c.fail("%s: unmixing %s, by the published iteration %s" % (where, show(W), show(refs[0][0])))
    return True
