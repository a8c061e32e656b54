"""C01: matrix arithmetic is textbook arithmetic, and incompatible shapes are rejected."""
import itertools
import math

import numpy as np

from wai.ma.core.matrix import helper

from ..util import M, A, table, generic, close, eclose, same, outcome, show

META = {
    "bounds": "all pairs of shapes up to 4x4 (quick) / 5x5 (thorough) for every binary operation; all 1x1, 1x2, 2x1 and "
              "2x2 matrices over {-1,0,2} pairwise; every operation on special-value tables (NaN, infinities, signed zero, "
              "huge, tiny) and on larger shapes up to 257 rows/columns; a scalar alphabet of Python and numpy numbers",
    "oracle": "element-by-element evaluation of the textbook definition in plain Python (fsum/Fractions-free doubles); "
              "operations the definition does not allow must raise",
    "assumptions": ["results are compared up to 1e-11 relative to the largest term of the sum that defines them"],
}

SCALARS = [0, 1, -1, 2, -3, 0.5, -2.25, 1e10, 1e-10]


def scalar_alphabet():
    out = []
    for s in SCALARS:
        out.append(s)
        out.append(np.float64(s))
        if isinstance(s, int):
            out.append(np.int64(s))
            out.append(np.int32(s))
            out.append(float(s))
    return out


def shapes(n):
    return [(r, c) for r in range(1, n + 1) for c in range(1, n + 1)]


BIG = [(1, 50), (50, 1), (33, 17), (64, 65), (65, 64), (130, 3), (3, 130), (257, 2), (2, 257), (100, 100)]
SPECIAL = [float('nan'), float('inf'), float('-inf'), 0.0, -0.0, 1e200, -1e200, 1e-200, 1.0, -2.0]


def cases(tier):
    n = 5 if tier == "thorough" else 4
    for a in shapes(n):
        yield {"k": "pairs", "a": a, "n": n}
    for a in shapes(n):
        for seed in range(6 if tier == "thorough" else 3):
            yield {"k": "unary", "a": a, "seed": seed}
    small = [(1, 1), (1, 2), (2, 1), (2, 2)]
    vals = [-1, 0, 2] if tier == "quick" else [-1, 0, 2, 3]
    for a in small:
        for first in itertools.product(vals, repeat=1):
            yield {"k": "small", "a": a, "first": first[0], "vals": vals}
    for s in BIG:
        yield {"k": "unary", "a": s, "seed": 1}
        yield {"k": "bigbin", "a": s}
    for s in [(2, 5), (5, 2), (1, 10), (10, 1)]:
        for rot in range(10):
            yield {"k": "special", "a": s, "rot": rot}
    for a in shapes(3) + [(7, 2), (2, 7)]:
        yield {"k": "scalar", "a": a}
    yield {"k": "sizes", "upto": 40 if tier == "quick" else 80}


# ---------------------------------------------------------------- reference
def dotp(xs, ys):
    return math.fsum(x * y for x, y in zip(xs, ys))


def ref_mul(a, b):
    return np.array([[dotp(a[i, :], b[:, j]) for j in range(b.shape[1])] for i in range(a.shape[0])]).reshape(
        a.shape[0], b.shape[1])


def ew(f, a, *bs):
    out = np.empty(a.shape)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            out[i, j] = f(np.float64(a[i, j]), *[np.float64(b[i, j]) for b in bs])
    return out


def vec_fits(a, v):
    """a row vector (a 1x1 counts as one) must have a's columns, a column vector a's rows."""
    if v.shape[0] == 1:
        return v.shape[1] == a.shape[1]
    if v.shape[1] == 1:
        return v.shape[0] == a.shape[0]
    return None


def expand(v, shape):
    return np.broadcast_to(v, shape).copy()


def is_vec(a):
    return a.shape[0] == 1 or a.shape[1] == 1


def near(a, b, tol, scale):
    return eclose(a, b, tol) if scale is None else close(a, b, tol, scale)


def expect(c, what, got, ref, tol=1e-11, scale=None):
    """got: outcome; ref: array, scalar or None (must be rejected)."""
    c.tick()
    kind, val = got
    if ref is None:
        if kind != 'err':
            c.fail("%s: accepted operands of incompatible shape, returned %r" % (what, val if not hasattr(val, 'data') else show(val.data)))
        return
    if kind == 'err':
        c.fail("%s: raised %r" % (what, val))
        return
    if isinstance(ref, np.ndarray):
        ok = hasattr(val, 'num_rows') and near(A(val), ref, tol, scale)
        if not ok:
            c.fail("%s: got %s expected %s" % (what, show(val.data) if hasattr(val, 'data') else val, show(ref)))
        elif (val.num_rows(), val.num_columns(), val.num_elements()) != (ref.shape[0], ref.shape[1], ref.size):
            c.fail("%s: dimensions reported wrongly" % what)
    else:
        if not near(np.array([float(val)]), np.array([float(ref)]), tol, scale):
            c.fail("%s: got %r expected %r" % (what, val, ref))


def binary(c, a, b, tag):
    ma, mb = M(a), M(b)
    sm = a.shape == b.shape
    mx = max(1e-300, np.max(np.abs(a)), np.max(np.abs(b))) if np.isfinite(a).all() and np.isfinite(b).all() else None
    expect(c, tag + " mul", outcome(ma.mul, mb), ref_mul(a, b) if a.shape[1] == b.shape[0] else None,
           scale=mx * mx * a.shape[1] if mx else None)
    expect(c, tag + " add", outcome(ma.add, mb), ew(lambda x, y: x + y, a, b) if sm else None)
    expect(c, tag + " sub", outcome(ma.sub, mb), ew(lambda x, y: x - y, a, b) if sm else None)
    expect(c, tag + " mul_elementwise", outcome(ma.mul_elementwise, mb), ew(lambda x, y: x * y, a, b) if sm else None)
    expect(c, tag + " div_elementwise", outcome(ma.div_elementwise, mb), ew(lambda x, y: np.divide(x, y), a, b) if sm else None)
    c.check(ma.same_shape_as(mb) == sm, tag + " same_shape_as")
    c.check(ma.is_multiplicable_with(mb) == (a.shape[1] == b.shape[0]), tag + " is_multiplicable_with")
    if is_vec(a) and is_vec(b) and a.size == b.size:
        expect(c, tag + " vector_dot", outcome(ma.vector_dot, mb), dotp(a.ravel(), b.ravel()), scale=mx * mx * a.size if mx else None)
    else:
        expect(c, tag + " vector_dot", outcome(ma.vector_dot, mb), None)
    colv = b.shape[1] == 1
    expect(c, tag + " scale_by_row_vector", outcome(ma.scale_by_row_vector, mb),
           ew(lambda x, y: x * y, a, expand(b.T, a.shape)) if colv and b.shape[0] == a.shape[1] else None)
    if not (b.shape == (1, 1) and a.shape[0] == 1 and a.shape[1] != 1):     # a 1x1 vector counts as a row vector
        expect(c, tag + " scale_by_column_vector", outcome(ma.scale_by_column_vector, mb),
               ew(lambda x, y: x * y, a, expand(b, a.shape)) if colv and b.shape[0] == a.shape[0] else None)
    for name, f in (("add", lambda x, y: x + y), ("sub", lambda x, y: x - y), ("mul", lambda x, y: x * y), ("div", lambda x, y: np.divide(x, y))):
        fits = is_vec(b) and vec_fits(a, b)
        ref = ew(f, a, expand(b, a.shape)) if fits else None
        if name != "div":
            expect(c, tag + " %s_by_vector" % name, outcome(getattr(ma, name + "_by_vector"), mb), ref)
        t = M(a)
        k, v = outcome(getattr(t, name + "_by_vector_modify"), mb)
        if ref is None:
            c.check(k == 'err' and same(A(t), a), tag + " %s_by_vector_modify must reject and leave the matrix alone" % name)
        else:
            c.check(k == 'ok' and eclose(A(t), ref, 1e-12), lambda: tag + " %s_by_vector_modify: %s expected %s" % (name, show(t.data), show(ref)))
    c.check(same(A(ma), a) and same(A(mb), b), tag + " operands changed")
    c.state("bin", a.shape, b.shape)
    c.trace()


def scalar_ops(c, a, tag, scal):
    ma = M(a)
    for s in scal:
        fs = float(s)
        expect(c, "%s mul(%r)" % (tag, s), outcome(ma.mul, s), ew(lambda x: x * fs, a))
        expect(c, "%s add(%r)" % (tag, s), outcome(ma.add, s), ew(lambda x: x + fs, a))
        expect(c, "%s sub(%r)" % (tag, s), outcome(ma.sub, s), ew(lambda x: x - fs, a))
        expect(c, "%s div(%r)" % (tag, s), outcome(ma.div, s), ew(lambda x: np.divide(x, np.float64(fs)), a))
        c.state("scal", a.shape, str(s))
    for e in (0, 1, 2, 3, 0.5, -1, -2, 2.0, 3.0):
        expect(c, "%s pow_elementwise(%r)" % (tag, e), outcome(ma.pow_elementwise, e),
               ew(lambda x: np.power(x, np.float64(e)), a))
    c.check(same(A(ma), a), tag + " operand changed by scalar operation")
    c.trace()


def statistics(c, tag, ma, a, mx):
    """The means and sample standard deviations of the rows and columns."""
    def std(vs, mean):
        return math.sqrt(math.fsum((v - mean) ** 2 for v in vs) / (len(vs) - 1)) if len(vs) > 1 else float("nan")
    scale = max(mx, 1e-300)
    for axis, lines, mean_f, std_f in (("row", list(a), helper.row_means, helper.row_stdevs), ("column", list(a.T), helper.column_means, helper.column_stdevs)):
        means = [math.fsum(l) / len(l) for l in lines]
        stds = [std(l, m) for l, m in zip(lines, means)]
        shape = (-1, 1) if axis == "row" else (1, -1)
        expect(c, tag + " %s_means" % axis, outcome(mean_f, ma), np.array(means).reshape(shape), scale=scale)
        expect(c, tag + " %s_stdevs" % axis, outcome(std_f, ma), np.array(stds).reshape(shape), scale=scale)
        for k in sorted({0, len(lines) // 2, len(lines) - 1}):
            for name, ref in (("mean", means[k]), ("stdev", stds[k])):
                expect(c, tag + " %s_%s(%d)" % (axis, name, k), outcome(getattr(helper, axis + "_" + name), ma, k), ref, scale=scale)
                expect(c, tag + " %s of %s %d" % (name, axis, k), outcome(getattr(helper, name), ma, k, axis == "column"), ref, scale=scale)
                if axis == "column":
                    expect(c, tag + " %s(%d)" % (name, k), outcome(getattr(helper, name), ma, k), ref, scale=scale)


def unary(c, a, tag):
    r, cc = a.shape
    ma = M(a)
    fin = np.isfinite(a).all()
    tot = lambda xs: math.fsum(xs) if fin else float(np.sum(np.array(list(xs))))
    absum = max(1e-300, math.fsum(abs(v) for v in a.ravel())) if fin else None
    expect(c, tag + " sum()", outcome(ma.sum), tot(a.ravel()), scale=absum)
    expect(c, tag + " sum(-1)", outcome(ma.sum, -1), np.array([[tot(a.ravel())]]), scale=absum)
    expect(c, tag + " sum(0)", outcome(ma.sum, 0), np.array([[tot(a[:, j]) for j in range(cc)]]), scale=absum)
    expect(c, tag + " sum(1)", outcome(ma.sum, 1), np.array([[tot(a[i, :])] for i in range(r)]), scale=absum)
    expect(c, tag + " mean()", outcome(ma.mean), tot(a.ravel()) / a.size, scale=absum)
    expect(c, tag + " mean(-1)", outcome(ma.mean, -1), np.array([[tot(a.ravel()) / a.size]]), scale=absum)
    expect(c, tag + " mean(0)", outcome(ma.mean, 0), np.array([[tot(a[:, j]) / r for j in range(cc)]]), scale=absum)
    expect(c, tag + " mean(1)", outcome(ma.mean, 1), np.array([[tot(a[i, :]) / cc] for i in range(r)]), scale=absum)
    for bad in (2, 3, -2):
        expect(c, tag + " sum(%d)" % bad, outcome(ma.sum, bad), None)
        expect(c, tag + " mean(%d)" % bad, outcome(ma.mean, bad), None)
    if fin:
        expect(c, tag + " norm1", outcome(ma.norm1), math.fsum(abs(v) for v in a.ravel()))
        mx = max(abs(v) for v in a.ravel())
        fro = mx * math.sqrt(math.fsum((v / mx) ** 2 for v in a.ravel())) if mx else 0.0
        n2 = fro if is_vec(a) else fro / math.sqrt(min(r, cc))
        if mx < 1e150 and (mx > 1e-150 or mx == 0):
            expect(c, tag + " norm2", outcome(ma.norm2), n2)
            expect(c, tag + " norm2_squared", outcome(ma.norm2_squared), n2 * n2)
            for ax in (0, 1):
                nr = [math.sqrt(math.fsum(v * v for v in (a[:, k] if ax == 0 else a[k, :]))) for k in range(cc if ax == 0 else r)]
                ref = ew(lambda x, n: np.divide(x, n), a, np.array([[nr[j] if ax == 0 else nr[i] for j in range(cc)] for i in range(r)]))
                expect(c, tag + " normalized(%d)" % ax, outcome(ma.normalized, ax), ref)
            expect(c, tag + " normalized()", outcome(ma.normalized), A(ma.normalized(0)))
        s = sorted(a.ravel())
        med = s[len(s) // 2] if len(s) % 2 else (s[len(s) // 2 - 1] / 2 + s[len(s) // 2] / 2)
        expect(c, tag + " median", outcome(ma.median), med, scale=max(mx, 1e-300))
        expect(c, tag + " max", outcome(ma.max), max(a.ravel()))
        if mx < 1e150 and (mx > 1e-150 or mx == 0):
            statistics(c, tag, ma, a, mx)
    expect(c, tag + " abs", outcome(ma.abs), ew(abs, a))
    # the sign of NaN may be NaN or 0
    how, got = outcome(ma.sign)
    got = M(np.where(np.isnan(a) & (A(got) == 0), np.nan, A(got))) if how == "ok" and A(got).shape == a.shape else got
    expect(c, tag + " sign", (how, got), ew(lambda x: x if x != x else np.float64(0 if x == 0 else 1 if x > 0 else -1), a))
    expect(c, tag + " sqrt", outcome(ma.sqrt), ew(np.sqrt, a))
    expect(c, tag + " exp", outcome(ma.exp), ew(np.exp, a), scale=None)
    expect(c, tag + " tanh", outcome(ma.tanh), ew(np.tanh, a))
    expect(c, tag + " transpose", outcome(ma.transpose), np.array([[a[i, j] for i in range(r)] for j in range(cc)]))
    expect(c, tag + " t", outcome(ma.t), np.array([[a[i, j] for i in range(r)] for j in range(cc)]))
    dg = [a[i, i] for i in range(min(r, cc))]
    expect(c, tag + " diag", outcome(ma.diag), np.array([[v] for v in dg]))
    expect(c, tag + " trace", outcome(ma.trace), tot(dg), scale=absum)
    for lo, hi in ((-1, 1), (0, 0), (-2.5, 3), (2, 5)):
        expect(c, tag + " clip(%r,%r)" % (lo, hi), outcome(ma.clip, lo, hi), ew(lambda x: np.float64(lo) if x < lo else np.float64(hi) if x > hi else x, a))
        expect(c, tag + " clip_lower(%r)" % lo, outcome(ma.clip_lower, lo), ew(lambda x: np.float64(lo) if x < lo else x, a))
        expect(c, tag + " clip_upper(%r)" % hi, outcome(ma.clip_upper, hi), ew(lambda x: np.float64(hi) if x > hi else x, a))
    expect(c, tag + " clip reversed", outcome(ma.clip, 1, -1), None)
    expect(c, tag + " apply_elementwise", outcome(ma.apply_elementwise, lambda x: 3 * x - 1), ew(lambda x: 3 * x - 1, a))
    if a.shape == (1, 1):
        expect(c, tag + " as_real", outcome(ma.as_real), a[0, 0])
    else:
        expect(c, tag + " as_real", outcome(ma.as_real), None)
    c.check((bool(ma.is_vector()), bool(ma.is_row_vector()), bool(ma.is_column_vector()), bool(ma.is_square())) ==
            (is_vec(a), r == 1, cc == 1, r == cc), tag + " shape predicates")
    c.check((ma.num_rows(), ma.num_columns(), ma.num_elements()) == (r, cc, r * cc), tag + " dimensions")
    for name, p in (("gt0", lambda x: x > 0), ("eq0", lambda x: x == 0), ("nan", lambda x: x != x), ("true", lambda x: True), ("false", lambda x: False)):
        hits = [(i, j) for i in range(r) for j in range(cc) if p(a[i, j])]
        c.check(bool(ma.any(p)) == bool(hits), "%s any(%s)" % (tag, name))
        c.check(bool(ma.all(p)) == (len(hits) == r * cc), "%s all(%s)" % (tag, name))
        c.check([tuple(map(int, h)) for h in ma.which(p)] == hits, "%s which(%s)" % (tag, name))
        if is_vec(a):
            c.check(list(ma.where_vector(p)) == [max(h) for h in hits], "%s where_vector(%s)" % (tag, name))
        else:
            expect(c, tag + " where_vector", outcome(ma.where_vector, p), None)
    c.check(bool(ma.contains_NaN()) == bool(np.isnan(a).any()), tag + " contains_NaN")
    c.check(same(A(ma), a), tag + " operand changed by a unary operation")
    c.state("un", a.shape, tuple(np.round(a.ravel()[:9], 6)))
    c.trace()


def special_table(shape, rot):
    n = shape[0] * shape[1]
    return np.array([SPECIAL[(i * 3 + rot) % len(SPECIAL)] for i in range(n)]).reshape(shape)


def run_case(case, c):
    k = case["k"]
    if k == "pairs":
        a_sh = tuple(case["a"])
        for b_sh in shapes(case["n"]):
            for seed in (0, 1):
                a = table(*a_sh, seed=seed)
                b = generic(*b_sh, seed=seed + 5)
                binary(c, a, b, "%sx%s" % (a_sh, b_sh))
        c.sample("all binary operations on shapes %s x every shape" % (a_sh,))
    elif k == "small":
        vals, sh = case["vals"], tuple(case["a"])
        n = sh[0] * sh[1]
        for rest in itertools.product(vals, repeat=n - 1):
            a = np.array((case["first"],) + rest, float).reshape(sh)
            ma = M(a)
            unary(c, a, str(a.tolist()))
            for b_sh in {sh, (sh[1], sh[0])}:
                for content in itertools.product(vals, repeat=n):
                    b = np.array(content, float).reshape(b_sh)
                    mb = M(b)
                    tag = "%s ? %s" % (a.tolist(), b.tolist())
                    if a.shape[1] == b.shape[0]:
                        c.check(same(A(ma.mul(mb)), ref_mul(a, b)), tag + " mul")
                    if a.shape == b.shape:
                        c.check(same(A(ma.add(mb)), a + b) and same(A(ma.sub(mb)), a - b) and same(A(ma.mul_elementwise(mb)), a * b),
                                tag + " add/sub/mul_elementwise")
                        if (b != 0).all():
                            c.check(same(A(ma.div_elementwise(mb)), a / b), tag + " div_elementwise")
                        c.check((ma == mb) == bool((a == b).all()), tag + " ==")
                    if is_vec(a):
                        c.check(float(ma.vector_dot(mb)) == float(np.sum(a.ravel() * b.ravel())), tag + " vector_dot")
                    c.state(tuple(a.ravel()), tuple(b.ravel()), b_sh)
                    c.trace()
    elif k == "unary":
        a = table(*case["a"], seed=case["seed"]) if case["seed"] % 2 else generic(*case["a"], seed=case["seed"])
        unary(c, a, "%s#%d" % (tuple(case["a"]), case["seed"]))
    elif k == "bigbin":
        r, p = case["a"]
        for q in (1, 2, r, p):
            a, b = table(r, p, 3), generic(p, q, 4)
            expect(c, "big mul %s" % ((r, p, q),), outcome(M(a).mul, M(b)), ref_mul(a, b), scale=100.0 * p)
        for b_sh in ((r, p), (1, p), (r, 1), (p, r), (p, 1), (1, r)):
            binary(c, generic(r, p, 3), generic(*b_sh, seed=8), "big %sx%s" % ((r, p), b_sh))
        scalar_ops(c, generic(r, p, 2), "big %s" % ((r, p),), [2, -0.5])
    elif k == "special":
        a = special_table(case["a"], case["rot"])
        unary(c, a, "special %s" % (a.tolist(),))
        b = special_table(case["a"], (case["rot"] * 7 + 3) % 10)
        ma, mb = M(a), M(b)
        for name, f in (("add", np.add), ("sub", np.subtract), ("mul_elementwise", np.multiply), ("div_elementwise", np.divide)):
            expect(c, "special " + name, outcome(getattr(ma, name), mb), f(a, b))
        scalar_ops(c, a, "special", [0, 2, -1.5])
    elif k == "scalar":
        for seed in (0, 1):
            scalar_ops(c, generic(*case["a"], seed=seed), "%s" % (case["a"],), scalar_alphabet())
    elif k == "sizes":
        # the same vector/matrix sums for every length, so that no length is special
        for n in range(1, case["upto"] + 1):
            a = generic(1, n, n)
            b = generic(n, 1, n + 1)
            mx = 100.0 * n
            expect(c, "row*col %d" % n, outcome(M(a).mul, M(b)), ref_mul(a, b), scale=mx)
            expect(c, "dot %d" % n, outcome(M(a).vector_dot, M(b)), dotp(a.ravel(), b.ravel()), scale=mx)
            expect(c, "outer %d" % n, outcome(M(b).mul, M(a)), ref_mul(b, a))
            unary(c, a, "row %d" % n)
            if n <= 20:
                unary(c, b, "col %d" % n)
                unary(c, generic(n, n, n), "square %d" % n)
