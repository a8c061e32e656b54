"""C23: kernels."""
import itertools
import math

import numpy as np

from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from ..util import M, A, generic, show

META = {
    "bounds": "row counts 1..6 x 1..6 x widths 1..8 (thorough 8/8/14) of generic, integer, tiny and huge designs, and 6 shapes of up to 520 rows or 300 columns; linear, polynomial (degree 1..5, and 0.5, 2.5 on positive bases, x coef_0 x gamma incl. unset) and RBF (gamma grid incl. unset and 0) kernels; "
              "one- and two-argument matrix form and vector form; all histories of 3 applications over data sets of 3 widths and of parameter changes between them",
    "oracle": "the kernel formula evaluated per pair of rows in numpy; the unsquared-distance RBF is the recorded finding and only its exact formula is accepted as such",
    "assumptions": [],
}

POLY = [(d, c0, g) for d in (1, 2, 3, 5) for c0 in (0.0, 1.0, -0.5) for g in (float("nan"), 1.0, 0.25)]
POLY += [(d, c0, g) for d in (0.5, 2.5, 3.0) for c0 in (1.0, 4.0) for g in (float("nan"), 0.25)]     # fractional degrees where the base is positive
RBF = [float("nan"), 1.0, 0.1, 2.5, 0.0]


def make(spec):
    if spec[0] == "lin":
        return LinearKernel()
    if spec[0] == "poly":
        k = PolyKernel()
        k.degree, k.coef_0, k.gamma = spec[1:]
        return k
    k = RBFKernel()
    k.gamma = spec[1]
    return k


def values(spec, x, y):
    """(documented, as-is) kernel matrices."""
    p = x.shape[1]
    out, alt = np.empty((len(x), len(y))), np.empty((len(x), len(y)))
    for i in range(len(x)):
        for j in range(len(y)):
            dot = float(np.dot(x[i], y[j]))
            if spec[0] == "lin":
                out[i, j] = alt[i, j] = dot
            elif spec[0] == "poly":
                g = 1.0 / p if math.isnan(spec[3]) else spec[3]
                base = g * dot + spec[2]
                out[i, j] = alt[i, j] = np.nan if spec[1] % 1 and base <= 1e-6 * (g * float(np.abs(x[i]) @ np.abs(y[j])) + abs(spec[2])) else base ** spec[1]
            else:
                g = 1.0 / p if math.isnan(spec[1]) else spec[1]
                d = math.sqrt(float(((x[i] - y[j]) ** 2).sum()))
                out[i, j], alt[i, j] = math.exp(-g * d * d), math.exp(-g * d)
    return out, alt


def tol_ok(spec, got, want, x, y):
    if got.shape != want.shape:
        return False
    # rounding of the inner product, carried through the power
    mag = np.abs(x) @ np.abs(y).T
    if spec[0] == "lin":
        return bool((np.abs(got - want) <= 1e-12 * mag + 1e-300).all())
    if spec[0] == "poly":
        g = 1.0 / x.shape[1] if math.isnan(spec[3]) else spec[3]
        size = abs(g) * mag + abs(spec[2])
        bound = 1e-11 * size ** spec[1] + 1e-300
        if spec[1] % 1:
            with np.errstate(all="ignore"):
                bound = np.maximum(bound, 1e-13 * size * spec[1] * np.abs(want) ** ((spec[1] - 1) / spec[1]))
        return bool(((np.abs(got - want) <= bound) | np.isnan(want)).all())
    return bool((np.abs(got - want) <= 1e-10).all())


SPECS = [("lin",)] + [("poly",) + p for p in POLY] + [("rbf", g) for g in RBF]


def cases(tier):
    n = 8 if tier == "thorough" else 6
    w = 14 if tier == "thorough" else 8
    for p in range(1, w + 1):
        for a in range(1, n + 1):
            yield {"k": "value", "p": p, "a": a, "n": n}
    for i in range(len(SPECS)):
        yield {"k": "history", "spec": i}
    for a, b, p in ((33, 70, 5), (130, 20, 3), (9, 12, 40), (12, 520, 2), (65, 65, 70), (3, 2, 300)):
        yield {"k": "large", "a": a, "b": b, "p": p}
    yield {"k": "invalid"}


def run_case(case, c):
    c.sample(case)
    globals()["do_" + case["k"]](case, c)


def judge(c, spec, got, x, y, label):
    want, alt = values(spec, x, y)
    c.tick()
    if tol_ok(spec, got, want, x, y):
        return
    if spec[0] == "rbf" and tol_ok(spec, got, alt, x, y):
        c.known("rbf-unsquared", "gamma=%s" % spec[1])
        return
    c.fail("%s %s of %s and %s: %s expected %s" % (spec, label, show(x), show(y), show(got), show(want)))


def do_value(case, c):
    p, a = case["p"], case["a"]
    sets = lambda n, s: [generic(n, p, s), np.round(generic(n, p, s + 1) / 3), generic(n, p, s + 2, 1e-4), generic(n, p, s + 3, 1e3, 5.0)]
    for spec in SPECS:
        for x in sets(a, a):
            k = make(spec)
            g = A(k.apply_matrix(M(x)))
            judge(c, spec, g, x, x, "gram")
            c.check(g.shape == (a, a) and (spec[0] == "poly" and spec[1] % 1) or bool((np.abs(g - g.T) <= 1e-12 * np.abs(g).max()).all()), lambda: "%s gram of %s is not symmetric" % (spec, show(x)))
            for b in range(1, case["n"] + 1):
                y = (x[:b] * 0.5 + 1) if b <= a else generic(b, p, 50 + b, float(np.abs(x).max()) / 9)
                g = A(k.apply_matrix(M(x), M(y)))
                judge(c, spec, g, x, y, "matrix")
                v = np.array([[float(k.apply_vector(M(x[i:i + 1]), M(y[j:j + 1]))) for j in range(b)] for i in range(a)])
                judge(c, spec, v, x, y, "vector")
                c.trace()
                c.state(spec, p, a, b, x.tobytes())


def do_large(case, c):
    x, y = generic(case["a"], case["p"], 3) / 3, generic(case["b"], case["p"], 4) / 3
    for spec in SPECS:
        k = make(spec)
        judge(c, spec, A(k.apply_matrix(M(x))), x, x, "large gram")
        judge(c, spec, A(k.apply_matrix(M(x), M(y))), x, y, "large matrix")
        judge(c, spec, A(k.apply_matrix(M(x), M(x[::-1].copy()))), x, x[::-1], "large reversed")
        c.trace()
        c.state(spec, case["a"], case["b"], case["p"])


def do_history(case, c):
    spec = SPECS[case["spec"]]
    data = [generic(3, 2, 1), generic(2, 5, 2), generic(4, 3, 3)]
    ops = [("gram", i) for i in range(3)] + [("pair", i) for i in range(3)] + [("vec", i) for i in range(3)] + [("str", 0), ("excursion", 0)]
    for h in itertools.product(ops, repeat=3):
        k = make(spec)
        for op, i in h:
            x = data[i]
            y = x[::-1][:2] + 0.5
            if op == "gram":
                judge(c, spec, A(k.apply_matrix(M(x))), x, x, "history %s" % (h,))
            elif op == "pair":
                judge(c, spec, A(k.apply_matrix(M(x), M(y))), x, y, "history %s" % (h,))
            elif op == "vec":
                judge(c, spec, np.array([[float(k.apply_vector(M(x[:1]), M(y[:1])))]]), x[:1], y[:1], "history %s" % (h,))
            elif op == "str":
                str(k)
            else:
                for attr, v in (("gamma", 7.0), ("degree", 4), ("coef_0", 3.0)):
                    if hasattr(k, attr):
                        old = getattr(k, attr)
                        setattr(k, attr, v)
                        k.apply_matrix(M(x))
                        setattr(k, attr, old)
        c.trace()
        c.state(spec, h)


def do_invalid(case, c):
    for bad in (0, -1, -3):
        k = PolyKernel()
        try:
            k.degree = bad
        except Exception:
            pass
        x = generic(3, 2, 1)
        c.check(k.degree == 3, "PolyKernel.degree = %d took effect" % bad)
        judge(c, ("poly", 3, 0.0, float("nan")), A(k.apply_matrix(M(x))), x, x, "after rejected degree")
        c.trace()
        c.state(bad)
    for k in (LinearKernel(), PolyKernel(), RBFKernel()):
        for w in (1, 2, 4):
            try:
                k.apply_matrix(M(generic(2, 3, 1)), M(generic(2, w, 1)))
                if w != 1:
                    c.fail("%s accepted data sets of different width" % type(k).__name__)
            except Exception:
                c.tick()
