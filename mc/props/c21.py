"""C21: Savitzky-Golay filters."""
from fractions import Fraction

import numpy as np

from wai.ma.transformation import SavitzkyGolay, SavitzkyGolay2

from ..util import M, A, generic, show

META = {
    "bounds": "polynomial order 2..8 (quick: 6), derivative order 0..order, points left and right 0..14 (quick: 7) independently plus symmetric windows up to 61 (from order 5: 161) points, with at least order+1 points; "
              "each applied to every unit impulse, every monomial up to the order, a generic batch of several rows, at exactly one window, one more and several more columns; every narrower width; all illegal values; all orders of setting the four parameters",
    "oracle": "the least-squares weights computed exactly in rational arithmetic; derivatives of monomials over the factorial, in closed form",
    "assumptions": ["the filter returns the Taylor coefficient (derivative divided by its factorial), as its reference values do"],
}


def weights(l, r, po, der):
    """Exact weights h with sum h_k f(k) = coefficient of x^der in the least-squares polynomial of degree po."""
    n = po + 1
    a = [[sum(Fraction(k) ** (i + j) for k in range(-l, r + 1)) for j in range(n)] + [Fraction(1 if i == der else 0)] for i in range(n)]
    for i in range(n):
        p = next(k for k in range(i, n) if a[k][i] != 0)
        a[i], a[p] = a[p], a[i]
        a[i] = [v / a[i][i] for v in a[i]]
        for k in range(n):
            if k != i and a[k][i] != 0:
                f = a[k][i]
                a[k] = [x - f * y for x, y in zip(a[k], a[i])]
    s = [row[n] for row in a]
    return [sum(s[j] * Fraction(k) ** j for j in range(n)) for k in range(-l, r + 1)]


def cases(tier):
    top = 8 if tier == "thorough" else 6
    side = 14 if tier == "thorough" else 7
    for po in range(2, top + 1):
        for der in range(0, po + 1):
            for l in range(side + 1):
                for r in range(side + 1):
                    if l + r >= po:
                        yield {"po": po, "der": der, "l": l, "r": r}
            for h in list(range(side + 1, 17)) + [20, 30] + ([80] if po >= 5 else []):
                yield {"po": po, "der": der, "l": h, "r": h}
    yield {"k": "invalid"}
    yield {"k": "narrow"}
    yield {"k": "order"}
    yield {"k": "few"}


def make(po, der, l, r):
    t = SavitzkyGolay()
    t.polynomial_order, t.derivative_order, t.num_points_left, t.num_points_right = po, der, l, r
    return t


def make2(po, der, n):
    t = SavitzkyGolay2()
    t.polynomial_order, t.derivative_order, t.num_points = po, der, n
    return t


def run_case(case, c):
    c.sample(case)
    if "k" in case:
        return globals()["do_" + case["k"]](c)
    po, der, l, r = case["po"], case["der"], case["l"], case["r"]
    h = np.array([float(v) for v in weights(l, r, po, der)])
    w = l + r + 1
    # rounding of the normal equations grows with their condition
    K = np.array([[float(k) ** i for i in range(po + 1)] for k in range(-l, r + 1)])
    K /= np.linalg.norm(K, axis=0)
    tol = max(1e-11, 20 * np.finfo(float).eps * np.linalg.cond(K.T @ K))
    if tol > 1e-4:
        c.guarded += 1
        return
    mk = [("SavitzkyGolay", make(po, der, l, r))]
    if l == r:
        mk.append(("SavitzkyGolay2", make2(po, der, l)))
    for name, t in mk:
        for width in (w, w + 1, w + 4):
            x = np.vstack([np.eye(width), generic(3, width, width)])
            want = np.array([[float(np.dot(h, row[i:i + w])) for i in range(width - w + 1)] for row in x])
            got = A(t.transform(M(x)))
            sc = np.abs(h).max() * np.abs(x).max(axis=1, keepdims=True)
            c.check(got.shape == want.shape and bool((np.abs(got - want) <= tol * w * sc).all()), lambda: "%s %s on width %d: %s expected %s" % (name, case, width, show(got), show(want)))
            one = A(t.transform(M(x[-1:])))
            c.check(one.shape == (1, width - w + 1) and np.array_equal(one, got[-1:]) or np.allclose(one, got[-1:], 1e-12, 1e-12), "%s %s: single row differs" % (name, case))
            pos = np.arange(width, dtype=float) - width // 2
            for d in range(po + 1):
                from math import comb
                x = (pos ** d).reshape(1, -1)
                at = pos[l:width - r]
                want = comb(d, der) * at ** (d - der) if d >= der else np.zeros(len(at))
                got = A(t.transform(M(x)))
                sc = np.abs(h).sum() * np.abs(x).max()
                c.check(got.shape == (1, width - w + 1) and bool((np.abs(got[0] - want) <= tol * sc).all()), lambda: "%s %s of x^%d on %s: %s expected %s" % (name, case, d, pos, show(got), show(want)))
            c.trace()
            c.state(name, po, der, l, r, width)


def do_invalid(c):
    for cls in (SavitzkyGolay, SavitzkyGolay2):
        for attr, bad in [("polynomial_order", v) for v in (1, 0, -1, -5)] + [("derivative_order", v) for v in (-1, -4)] + \
                ([("num_points_left", v) for v in (-1, -3)] + [("num_points_right", v) for v in (-1, -3)] if cls is SavitzkyGolay else [("num_points", v) for v in (-1, -3)]):
            t = cls()
            x = generic(2, 12, 1)
            before = A(t.transform(M(x)))
            old = getattr(t, attr)
            try:
                setattr(t, attr, bad)
                c.fail("%s.%s = %r was accepted" % (cls.__name__, attr, bad))
            except Exception:
                c.check(getattr(t, attr) == old and np.array_equal(A(t.transform(M(x))), before), "%s: rejected %s=%r had an effect" % (cls.__name__, attr, bad))
            c.trace()
            c.state(cls.__name__, attr, bad)
        for po in range(2, 6):
            for der in range(po + 1, po + 4):
                t = cls()
                try:
                    t.polynomial_order, t.derivative_order = po, der
                    got = t.transform(M(generic(2, 12, 1)))
                    c.fail("%s accepted derivative %d of order %d: %s" % (cls.__name__, der, po, show(got.data)))
                except Exception:
                    c.tick()
                c.trace()
                c.state(cls.__name__, po, der)


def do_narrow(c):
    for l in range(0, 6):
        for r in range(0, 6):
            if l + r < 2:
                continue
            for width in range(1, l + r + 1):
                try:
                    got = make(2, 1, l, r).transform(M(generic(2, width, 1)))
                    c.check(got.num_columns() == 0, lambda: "window of %d points on %d columns returned %s" % (l + r + 1, width, show(got.data)))
                except Exception:
                    c.tick()
                c.trace()
                c.state(l, r, width)


def do_few(c):
    """Too few points for the polynomial (more than the one-point window, which passes the data through)."""
    for po in range(2, 7):
        for der in range(po + 1):
            for l in range(po):
                for r in range(po - l):
                    if not 0 < l + r < po:
                        continue
                    for t in [make(po, der, l, r)] + ([make2(po, der, l)] if l == r else []):
                        try:
                            got = t.transform(M(generic(2, 10, 1)))
                            c.fail("order %d fitted to %d points: %s" % (po, l + r + 1, show(got.data)))
                        except Exception:
                            c.tick()
                        c.trace()
                        c.state("few", po, der, l, r)


def do_order(c):
    """Parameters set in every order, with uses in between, give the same filter."""
    import itertools
    x = M(generic(2, 16, 3))
    vals = (("polynomial_order", 4), ("derivative_order", 2), ("num_points_left", 4), ("num_points_right", 5))
    want = A(make(4, 2, 4, 5).transform(x))
    for perm in itertools.permutations(vals):
        for mask in range(16):
            t = SavitzkyGolay()
            for i, (k, v) in enumerate(perm):
                if mask >> i & 1:
                    t.transform(x)
                setattr(t, k, v)
                c.tick()
            c.check(np.array_equal(A(t.transform(x)), want), lambda: "order %s with uses %s gives another filter" % (perm, bin(mask)))
            c.trace()
            c.state(perm, mask)
    v2 = (("polynomial_order", 4), ("derivative_order", 2), ("num_points", 5))
    want = A(make2(4, 2, 5).transform(x))
    c.check(np.allclose(want, A(make(4, 2, 5, 5).transform(x))), "SavitzkyGolay2 differs from the symmetric SavitzkyGolay")
    for perm in itertools.permutations(v2):
        for mask in range(8):
            t = SavitzkyGolay2()
            for i, (k, v) in enumerate(perm):
                if mask >> i & 1:
                    t.transform(x)
                setattr(t, k, v)
                c.tick()
            c.check(np.array_equal(A(t.transform(x)), want), lambda: "SavitzkyGolay2: order %s with uses %s gives another filter" % (perm, bin(mask)))
            c.trace()
            c.state(perm, mask)
