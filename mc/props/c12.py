"""C12: the PLS variants against their published definitions."""
import itertools

import numpy as np

from wai.ma.algorithm.pls import PLS1, SIMPLS, NIPALS, CCARegression, KernelPLS, OPLS
from wai.ma.algorithm.pls._NIPALS import DeflationMode
from wai.ma.core import PreprocessingType
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from .. import refs
from ..designs import regress, VARIANTS
from ..util import M, A, show

META = {
    "bounds": "6 algorithms with all their options x 18 shapes (n>p, n=p, n<p, 2 to 110 rows, 1 to 20 predictors) x 11 data variants (shifted, badly scaled, tiny, huge, constant or duplicate columns, noise-free, tied integers, unrelated, negative, a constant first and a repeated response) x 1, 2, 3 or 5 responses x every component count up to 10 (and the rank); "
              "predictions and transformations of training and new rows, and the published weights, scores, loadings and coefficients; thorough: 6 seeds per design",
    "oracle": "numpy implementations of the published algorithms; the converged singular-vector definitions for iterative ones; ordinary least squares at full rank",
    "assumptions": ["comparisons on designs whose result moves by more than 1e-2 when the data move by 1e-9, or by 1e-7 when only the order of the rows or the unit of the response changes (near-breakdown of a component), are skipped and counted as guarded"],
}

ROWS = {"fit", "scores", "response", "T", "U", "T_orth", "projection"}
UNITS = {"predict", "fit", "b_hat", "RegVector", "B", "Q", "projection"}     # proportional to the response
SHAPES = [(4, 2), (5, 1), (6, 3), (8, 4), (12, 5), (5, 8), (4, 4), (3, 2), (20, 3), (7, 7), (9, 6), (10, 9), (16, 12), (30, 8), (45, 4), (2, 1), (6, 20), (110, 5)]


def cases(tier):
    for seed in range(6 if tier == "thorough" else 1):
        for n, p in SHAPES:
            for var in VARIANTS + ["ycols"]:
                if p == 1 and var in ("const", "dup"):
                    continue
                for alg in ("pls1", "simpls", "opls"):
                    if var == "ycols":
                        continue
                    yield {"alg": alg, "n": n, "p": p, "q": 1, "var": var, "seed": seed}
                for q in (1, 2, 3, 5):
                    if var == "ycols" and q == 1:
                        continue
                    for alg in ("nipals", "cca", "kernel"):
                        yield {"alg": alg, "n": n, "p": p, "q": q, "var": var, "seed": seed}


def rank(x):
    return int(np.linalg.matrix_rank(x, tol=1e-9 * max(1e-300, np.linalg.svd(x, compute_uv=False)[0])))


class Judge:
    """Compares the implementation with a reference, allowing for the amplification of rounding by the design."""

    def __init__(self, c, label, data, ref, sign=()):
        self.c, self.label, self.data, self.sign = c, label, data, set(sign)
        x, y, new = data
        perms = [np.arange(len(x))[::-1], np.roll(np.arange(len(x)), 1), np.argsort(np.arange(len(x)) * 7 % 11, kind="stable")]
        try:
            with np.errstate(all="ignore"):
                self.want = ref(x, y, new)
                d = 1e-9 * np.where(np.arange(x.size).reshape(x.shape) % 3 == 1, -1, 1)
                const = (x == x[0]).all(axis=0)
                d = np.where(const, 0, d)
                e = 1e-9 * np.where(np.arange(y.size).reshape(y.shape) % 2 == 1, -1, 1)
                moved = ref(x * (1 + d), y * (1 + e), new)
                permuted = [{k: v[np.argsort(p)] if k in ROWS else v for k, v in ref(x[p], y[p], new).items()} for p in perms]
                permuted += [{k: v / f if k in UNITS else v for k, v in ref(x, y * f, new).items()} for f in (1 / 3.0, 0.7, 11.0)]
        except np.linalg.LinAlgError:
            self.want = None
            return
        self.tol = {}
        for k in self.want:
            # amplification of an input perturbation, and the rounding of the computation itself (other summation orders, other units of the response)
            self.tol[k] = 1e-8 + 0.1 * self.distance(k, moved) + 1e4 * max(self.distance(k, p) for p in permuted)

    def distance(self, k, other):
        w, m = self.align(k, self.want[k], other[k])
        if not (np.isfinite(w).all() and np.isfinite(m).all()):
            return np.inf
        return np.abs(w - m).max() / max(np.abs(w).max(), 1e-300)

    def align(self, k, w, m):
        if k in self.sign and w.shape == m.shape:
            f = np.where((w * m).sum(axis=0) < 0, -1.0, 1.0)
            return w, m * f
        return w, m

    def usable(self, k):
        return self.want is not None and self.tol[k] < 1e-3

    def __call__(self, k, got, want=None, soft=False, floor=0.0):
        c = self.c
        c.tick()
        if not self.usable(k):
            c.guarded += 1
            return True
        w = self.want[k] if want is None else want
        got = np.asarray(got)
        if got.shape == w.shape:
            w, got = self.align(k, w, got)
        tol = self.tol[k]
        ok = got.shape == w.shape and bool(np.isfinite(got).all()) and np.abs(got - w).max() <= tol * np.abs(w).max() + 1e-12 * floor + 1e-300
        if not ok and not soft:
            c.fail("%s: %s is %s, by definition %s" % (self.label, k, show(got), show(w)))
        return ok


def run_case(case, c):
    c.sample(case)
    x, y, new = regress(case["n"], case["p"], case["q"], case["var"], 100 * case["seed"])
    globals()["do_" + case["alg"]](case, c, x, y, new)


def train(c, o, x, y, label):
    r = o.initialize(M(x), M(y))
    if r is not None:
        c.fail("%s: training was refused: %s" % (label, r))
        return False
    return True


def counts(x, centred):
    r = rank(x - x.mean(axis=0) if centred else x)
    return sorted(set(range(1, min(r, 10) + 1)) | {r}) if r else []


def prep_pair(mode, x, y):
    return refs.Prep(mode, x), refs.Prep(mode, y)


MODES = [("none", PreprocessingType.NONE), ("center", PreprocessingType.CENTER)]


def ols(c, j, label, x, y, new, got_train, got_new, intercept):
    """With all components of full-rank predictors the fit is the least-squares one."""
    n, p = x.shape
    xx = np.hstack([x, np.ones((n, 1))]) if intercept else x
    if np.linalg.matrix_rank(xx / np.abs(xx).max(axis=0)) < xx.shape[1] or not j.usable("predict") or n < xx.shape[1]:
        c.guarded += 1
        return
    s = np.abs(xx).max(axis=0)
    b = np.linalg.lstsq(xx / s, y, rcond=None)[0] / s[:, None]
    nn = np.hstack([new, np.ones((len(new), 1))]) if intercept else new
    tol = 1e-6 + 10 * j.tol["predict"]
    for got, want in ((got_train, xx @ b), (got_new, nn @ b)):
        c.check(got.shape == want.shape and np.abs(got - want).max() <= tol * max(np.abs(want).max(), np.abs(y).max()), lambda: "%s: with all components predicts %s, least squares gives %s" % (label, show(got), show(want)))


def do_pls1(case, c, x, y, new):
    for (mode, pt) in MODES:
        for k in counts(x, mode == "center"):
            label = "PLS1 %s %d components, %s" % (mode, k, case)

            def ref(x, y, new):
                px, py = prep_pair(mode, x, y)
                m = refs.pls1(px(x), py(y), k)
                return dict(predict=py.back(px(new) @ m["coef"]), fit=py.back(px(x) @ m["coef"]), transform=px(new) @ m["R"], scores=m["T"], W=m["W"], P=m["P"], b_hat=m["b"], RegVector=m["coef"])
            j = Judge(c, label, (x, y, new), ref)
            o = PLS1()
            o.preprocessing_type, o.num_components = pt, k
            if not train(c, o, x, y, label):
                continue
            j("predict", A(o.predict(M(new))))
            j("fit", A(o.predict(M(x))))
            j("transform", A(o.transform(M(new))))
            j("scores", A(o.transform(M(x))))
            for name in ("W", "P", "b_hat", "RegVector"):
                j(name, A(o.get_matrix(name)))
            c.check(np.array_equal(A(o.get_loadings()), A(o.get_matrix("P"))), "PLS1: the loadings are not P")
            if k == rank(x) and (mode == "none" or k == rank(x - x.mean(axis=0))):
                ols(c, j, label, x, y, new, A(o.predict(M(x))), A(o.predict(M(new))), mode == "center")
            c.trace()
            c.state(case, mode, k)


def do_simpls(case, c, x, y, new):
    for (mode, pt) in MODES:
        for k in counts(x, mode == "center"):
            label = "SIMPLS %s %d components, %s" % (mode, k, case)

            def ref(x, y, new):
                px, py = prep_pair(mode, x, y)
                m = refs.pls1(px(x), py(y), k)
                W = m["R"] / np.linalg.norm(m["T"], axis=0)        # weights that give scores of unit length
                return dict(predict=py.back(px(new) @ m["coef"]), fit=py.back(px(x) @ m["coef"]), transform=px(new) @ W, scores=px(x) @ W, W=W, B=m["coef"], Q=py(y).T @ px(x) @ W)
            j = Judge(c, label, (x, y, new), ref, ("transform", "scores", "W", "Q"))
            if j.want is not None:
                px, py = prep_pair(mode, x, y)
                sv = np.linalg.svd(px(x), compute_uv=False)
                cond = sv[0] / sv[sv > 1e-9 * sv[0]][-1]
                basis = np.linalg.qr(px(x).T @ refs.pls1(px(x), py(y), k)["T"])[0][:, :k - 1]
                S = px(x).T @ py(y)
                left = np.linalg.norm(S) / max(1e-300, np.linalg.norm(S - basis @ (basis.T @ S)))
                for m in j.tol:          # SIMPLS works on X'X, which squares the condition of X, and deflates X'y, which cancels digits
                    j.tol[m] += 2e-12 * cond ** 2 + 1e-13 * cond * left
            o = SIMPLS()
            o.preprocessing_type, o.num_components = pt, k
            if not train(c, o, x, y, label):
                continue
            j("predict", A(o.predict(M(new))))
            j("fit", A(o.predict(M(x))))
            j("transform", A(o.transform(M(new))))
            j("scores", A(o.transform(M(x))))
            for name in ("W", "B", "Q"):
                j(name, A(o.get_matrix(name)))
            if j.usable("W"):
                W, B, Q = (A(o.get_matrix(n)) for n in "WBQ")
                c.check(np.abs(B - W @ Q.T).max() <= 1e-9 * max(np.abs(W @ Q.T).max(), 1e-300), "%s: the coefficients are not W*Q'" % label)
            c.trace()
            c.state(case, mode, k)
            for keep in range(1, x.shape[1] + 1):
                slim(c, case, label, j, o, pt, k, keep, x, y, new)


def slim(c, case, label, j, full, pt, k, keep, x, y, new):
    """num_coefficients keeps that many weights of largest magnitude per component."""
    if not j.usable("W"):
        c.guarded += 1
        return
    W, Q = A(full.get_matrix("W")), A(full.get_matrix("Q"))
    o = SIMPLS()
    o.preprocessing_type, o.num_components, o.num_coefficients = pt, k, keep
    if not train(c, o, x, y, label):
        return

    def cut(n):
        out = W.copy()
        ambiguous = False
        for i in range(out.shape[1]):
            m = np.sort(np.abs(W[:, i]))[::-1]
            limit = m[min(n, len(m)) - 1]
            if n < len(m) and m[n] > limit * (1 - 1e-9):
                ambiguous = True
            out[np.abs(W[:, i]) < limit * (1 - 1e-9), i] = 0
        return out, ambiguous
    got = A(o.get_matrix("W"))
    c.tick()
    res = {}
    for name, n in (("documented", keep), ("as is", keep + 1)):
        want, amb = cut(n)
        if amb:
            c.guarded += 1
            return
        px, py = prep_pair("none" if pt is PreprocessingType.NONE else "center", x, y)
        res[name] = np.allclose(got, want, 1e-9, 0) and np.array_equal(got == 0, want == 0) and np.allclose(A(o.transform(M(new))), px(new) @ want, 1e-7, 1e-9 * np.abs(px(new) @ W).max()) \
            and np.allclose(A(o.predict(M(new))), py.back(px(new) @ want @ Q.T), 1e-7, 1e-8 * np.abs(y).max())
    if res["documented"]:
        return
    if res["as is"]:
        c.known("simpls-slim", "%s keeping %d" % (label, keep))
        return
    c.fail("%s: keeping %d coefficients gives weights %s of %s" % (label, keep, show(got), show(W)))


def do_opls(case, c, x, y, new):
    for mode, pt in MODES:
        r = rank(x - x.mean(axis=0) if mode == "center" else x)
        for k in range(1, min(r, 9)):
            for base in range(1, min(r - k, 2) + 1):
                label = "OPLS %s %d orthogonal and %d base components, %s" % (mode, k, base, case)

                def model(sequential):
                    def ref(x, y, new):
                        px, py = prep_pair(mode, x, y)
                        f = refs.opls(px(x), py(y), k, sequential)
                        m = refs.pls1(f["filter"](px(x)), py(y), base)
                        return dict(predict=py.back(f["filter"](px(new)) @ m["coef"]), fit=py.back(f["filter"](px(x)) @ m["coef"]), transform=f["filter"](px(new)), P_orth=f["P"], W_orth=f["W"], T_orth=f["T"])
                    return ref
                o = OPLS()
                o.preprocessing_type, o.num_components, o.base_PLS.num_components = pt, k, base
                doc, asis = Judge(c, label, (x, y, new), model(True), ("P_orth", "W_orth", "T_orth")), Judge(c, label, (x, y, new), model(False), ("P_orth", "W_orth", "T_orth"))
                try:
                    if not train(c, o, x, y, label):
                        continue
                except Exception as e:
                    if doc.usable("predict") and asis.usable("predict"):
                        c.fail("%s: %r" % (label, e))
                    else:
                        c.guarded += 1
                    continue
                for name in ("W_orth", "P_orth", "T_orth"):
                    doc(name, A(o.get_matrix(name)))
                got = {"predict": A(o.predict(M(new))), "fit": A(o.predict(M(x))), "transform": A(o.transform(M(new)))}
                if all([doc(n, g, soft=True) for n, g in got.items()]):
                    pass
                elif k > 1 and all([asis(n, g, soft=True) for n, g in got.items()]):
                    c.known("opls-simultaneous", label)
                else:
                    for n, g in got.items():
                        doc(n, g)
                    c.fail("%s: neither the sequential nor the recorded simultaneous filter" % label)
                # the orthogonal scores carry nothing about the response
                if doc.usable("T_orth"):
                    T = A(o.get_matrix("T_orth"))
                    yy = y - y.mean() if mode == "center" else y
                    c.check(np.abs(T.T @ yy).max() <= 1e-6 * np.linalg.norm(T) * max(np.linalg.norm(yy), 1e-300), "%s: the orthogonal scores correlate with the response" % label)
                c.trace()
                c.state(case, mode, k, base)


def nipals_like(case, c, cls, x, y, new):
    cca = cls is CCARegression
    for k in counts(x, True):
        if cca and k > case["q"]:
            continue
        for canonical in ((True,) if cca else (False, True)):
            if canonical and k > case["q"]:
                continue
            for norm_y in (False, True):
                label = "%s canonical=%s norm_Y=%s %d components, %s" % (cls.__name__, canonical, norm_y, k, case)

                def ref(x, y, new):
                    m = refs.nipals(x, y, k, canonical, cca, norm_y)
                    return dict(predict=m["predict"](new), fit=m["predict"](x), transform=m["transform"](new), scores=m["transform"](x), response=m["ytransform"](y), T=m["T"], U=m["U"], P=m["P"], Q_=m["Q"])
                j = Judge(c, label, (x, y, new), ref, ("transform", "scores", "response", "T", "U", "P", "Q_"))
                o = cls()
                o.num_components, o.norm_Y_weights = k, norm_y
                if not cca:
                    o.deflation_mode = DeflationMode.CANONICAL if canonical else DeflationMode.REGRESSION
                try:
                    if not train(c, o, x, y, label):
                        continue
                except Exception as e:
                    if j.usable("predict"):
                        c.fail("%s: %r" % (label, e))
                    else:
                        c.guarded += 1
                    continue
                if stopped(o, k):
                    c.guarded += 1          # the algorithm stops when nothing is left to explain
                    continue
                j("predict", A(o.predict(M(new))))
                j("fit", A(o.predict(M(x))))
                j("transform", A(o.transform(M(new))))
                j("scores", A(o.transform(M(x))))
                j("response", A(o.do_transform_response(M(y))))
                for name in ("T", "U", "P", "Q_"):
                    j(name, A(o.get_matrix(name[0])))
                if j.usable("T") and j.usable("scores"):
                    T = A(o.get_matrix("T"))
                    G = T.T @ T
                    c.check(np.abs(G - np.diag(np.diag(G))).max() <= (1e-7 + 10 * j.tol["T"]) * np.abs(G).max(), "%s: the scores are not orthogonal" % label)
                    c.check(np.abs(A(o.transform(M(x))) - T).max() <= (1e-6 + 10 * j.tol["scores"]) * np.abs(T).max(), "%s: transforming the training data doesn't give the scores" % label)
                c.check(np.array_equal(A(o.get_loadings()), A(o.get_matrix("P"))), "%s: the loadings are not P" % label)
                if not canonical and k == rank(x - x.mean(axis=0)):
                    ols(c, j, label, x, y, new, A(o.predict(M(x))), A(o.predict(M(new))), True)
                c.trace()
                c.state(case, canonical, norm_y, k)
        if not cca:
            limit(case, c, x, y, new, k)


def stopped(o, k):
    return any(not A(o.get_matrix("T"))[:, i].any() for i in range(k))


def limit(case, c, x, y, new, k):
    """A tight tolerance reaches the singular vectors of the cross-covariance."""
    label = "NIPALS at convergence, %d components, %s" % (k, case)

    def ref(x, y, new):
        m = refs.nipals_limit(x, y, k)
        return dict(predict=m["predict"](new), transform=m["transform"](new), gap=np.array([[m["gap"]]]))
    j = Judge(c, label, (x, y, new), ref, ("transform",))
    if not j.usable("predict") or j.want["gap"].item() > 0.95:
        c.guarded += 1
        return
    o = NIPALS()
    o.num_components, o.tol, o.max_iter = k, 1e-26, 3000
    if train(c, o, x, y, label) and not stopped(o, k):
        j("predict", A(o.predict(M(new))))
        j("transform", A(o.transform(M(new))))


def do_nipals(case, c, x, y, new):
    nipals_like(case, c, NIPALS, x, y, new)


def do_cca(case, c, x, y, new):
    nipals_like(case, c, CCARegression, x, y, new)


def kernels(p, scale):
    lin = LinearKernel()
    poly, poly2 = PolyKernel(), PolyKernel()
    poly2.gamma = 0.05 / scale ** 2
    rbf, rbf2 = RBFKernel(), RBFKernel()
    rbf2.gamma = 0.1 / scale
    rbf.gamma = float("nan")
    yield "linear", lin, 1.0
    yield "poly", poly, 1.0 / p
    yield "poly", poly2, poly2.gamma
    yield "rbf", rbf, 1.0 / p
    yield "rbf", rbf2, rbf2.gamma


def do_kernel(case, c, x, y, new):
    scale = np.abs(x - x.mean(axis=0)).max()
    n = len(x)
    for kname, kernel, gamma in kernels(x.shape[1], scale):
        top = rank(x - x.mean(axis=0)) if kname == "linear" else min(n - 1, 5)
        for k in sorted({1, 2, 3, 4, top} & set(range(1, top + 1))):
            label = "KernelPLS %s gamma=%g %d components, %s" % (kname, gamma, k, case)

            def model(centred):
                def ref(x, y, new):
                    m = refs.kernel_pls(x, y, k, lambda a, b: refs.kernel_matrix(kname, gamma, a, b), centred)
                    return dict(predict=m["predict"](new), fit=m["predict"](x), transform=m["transform"](new), T=m["T"], U=m["U"], gap=np.array([[m["gap"] + 1]]), projection=m["fit"])
                return ref
            doc, asis = Judge(c, label, (x, y, new), model(True), ("transform", "T", "U")), Judge(c, label, (x, y, new), model(False), ("transform", "T", "U"))
            if not doc.usable("predict") or not asis.usable("predict") or not doc.usable("T") or doc.want["gap"].item() > 1.97:
                c.guarded += 1
                continue
            o = KernelPLS()
            o.kernel, o.num_components, o.tol, o.max_iter = kernel, k, 1e-13, 3000
            if not train(c, o, x, y, label):
                continue
            magnitude = np.abs(refs.kernel_matrix(kname, gamma, x - x.mean(axis=0), x - x.mean(axis=0))).max()
            doc("T", A(o.get_matrix("T")))
            doc("U", A(o.get_matrix("U")))
            got = {"predict": A(o.predict(M(new))), "fit": A(o.predict(M(x))), "transform": A(o.transform(M(new)))}
            if all([doc(m, g, soft=True, floor=magnitude) for m, g in got.items()]):
                # a correctly centred kernel reproduces the projection on the scores
                doc("projection", got["fit"])
            elif kname != "linear" and all([asis(m, g, soft=True, floor=magnitude) for m, g in got.items()]):
                c.known("kernelpls-centering", label)
            else:
                for m, g in got.items():
                    doc(m, g, floor=magnitude)
                c.fail("%s: neither the published nor the recorded centring of the test kernel" % label)
            T = A(o.get_matrix("T"))
            c.check(np.abs(T.T @ T - np.eye(k)).max() < 1e-6 + 10 * doc.tol["T"], "%s: the scores are not orthonormal" % label)
            if kname == "linear" and k == top and k == rank(x - x.mean(axis=0)):
                ols(c, doc, label, x, y, new, got["fit"], got["predict"], True)
            c.trace()
            c.state(case, kname, gamma, k)
