"""C02: construction, extraction, concatenation and in-place updates address exactly the named cells."""
import itertools

import numpy as np

from wai.ma.core.matrix import Matrix, factory, helper

from ..util import M, ML, LAYOUTS, A, table, generic, same, outcome, show

META = {
    "bounds": "all shapes up to 4x4 (plus larger strips), every pair of row/column selections (all index lists up to length 3 "
              "incl. repeats and reorderings, all half-open ranges), all concatenations of shapes up to 3x3, and all histories of "
              "4 in-place updates over an alphabet of 24 updates on a 3x3, 2x3 and 3x2 matrix and of 3 (quick) / 4 (thorough) on eight "
              "further shapes; every single in-place update on all shapes up to 7x7 / 10x10 and strips, in 6 memory layouts; equality of "
              "matrices up to 4x4 that differ in one cell by down to one unit in the last place",
    "oracle": "a plain list of lists",
}

SHAPES = [(r, c) for r in range(1, 5) for c in range(1, 5)]


def cases(tier):
    for s in SHAPES + [(1, 9), (9, 1), (12, 11), (40, 3)]:
        yield {"k": "select", "s": s}
        for lay in LAYOUTS:
            yield {"k": "views", "s": s, "lay": lay}
    for a in itertools.product(range(1, 4), repeat=2):
        yield {"k": "concat", "s": a}
    yield {"k": "multiconcat"}
    for r in range(1, 7):
        yield {"k": "factory", "r": r}
    yield {"k": "eq"}
    depth = 4
    for s in ((3, 3), (2, 3), (3, 2)):
        for first in range(len(alphabet(s))):
            yield {"k": "hist", "s": s, "first": first, "depth": depth}
    for s in ((1, 1), (1, 4), (4, 1), (2, 2), (5, 2), (2, 5), (4, 4), (6, 3)):
        for first in range(len(alphabet(s))):
            yield {"k": "hist", "s": s, "first": first, "depth": 3 if tier == "quick" else 4}
    yield {"k": "bigset"}
    n = 7 if tier == "quick" else 10
    for s in [(r, p) for r in range(1, n + 1) for p in range(1, n + 1)] + [(1, 12), (12, 1), (2, 15), (15, 2), (5, 9), (9, 5), (33, 4), (4, 33), (3, 17)]:
        for lay in LAYOUTS:
            yield {"k": "each", "s": s, "lay": lay}
    for r in range(1, 5):
        for p in range(1, 5):
            yield {"k": "neareq", "s": (r, p)}


def sel_ref(a, rows, cols):
    return np.array([[a[i][j] for j in cols] for i in rows]).reshape(len(rows), len(cols))


def expect(c, what, got, ref):
    c.tick()
    kind, v = got
    if ref is None:
        if kind == 'ok':
            c.fail("%s: accepted, returned %s" % (what, show(v.data)))
        return
    if kind == 'err':
        c.fail("%s: raised %r" % (what, v))
    elif not same(A(v), ref):
        c.fail("%s: got %s expected %s" % (what, show(v.data), show(ref)))


# ------------------------------------------------------------------ update alphabet
def alphabet(s):
    r, p = s
    ops = []
    for i in (0, r - 1):
        for j in (0, p - 1):
            ops.append(("set", i, j, 7 + i - 2 * j))
    ops.append(("set", min(1, r - 1), min(1, p - 1), -0.5))
    for i in range(r):
        ops.append(("set_row", i, "row", p))
    ops.append(("set_row", 0, "col", p))
    ops.append(("set_row", r - 1, "row", p - 1))
    ops.append(("set_row", 0, "row", p + 1))
    for j in range(p):
        ops.append(("set_column", j, "col", r))
    ops.append(("set_column", p - 1, "row", r))
    ops.append(("set_column", 0, "col", r - 1))
    ops.append(("set_column", 0, "col", r + 1))
    for name in ("add", "sub", "mul"):
        ops.append((name, "row"))
        ops.append((name, "col"))
    ops.append(("fill", 4))
    # a vector of one cell counts as a row vector; a vector of none isn't a vector
    return [o for o in ops if not (o[0] in ("set_row", "set_column") and o[3] == 0) and not (o[0] in ("add", "sub", "mul") and o[1] == "col" and r == 1)]


def vec(kind, n):
    v = [3 + 2 * k for k in range(n)]
    return M([v]) if kind == "row" else M([[x] for x in v])


def apply_real(m, op):
    r, p = m.num_rows(), m.num_columns()
    if op[0] == "set":
        m.set(op[1], op[2], op[3])
    elif op[0] == "set_row":
        m.set_row(op[1], vec(op[2], op[3]))
    elif op[0] == "set_column":
        m.set_column(op[1], vec(op[2], op[3]))
    elif op[0] == "fill":
        helper.fill_diagonal(m, op[1])
    else:
        getattr(m, op[0] + "_by_vector_modify")(vec(op[1], p if op[1] == "row" else r))


def apply_ref(a, op):
    r, p = len(a), len(a[0])
    if op[0] == "set":
        a[op[1]][op[2]] = float(op[3])
    elif op[0] == "set_row":
        for j in range(min(p, op[3])):
            a[op[1]][j] = float(3 + 2 * j)
    elif op[0] == "set_column":
        for i in range(min(r, op[3])):
            a[i][op[1]] = float(3 + 2 * i)
    elif op[0] == "fill":
        for i in range(min(r, p)):
            a[i][i] = float(op[1])
    else:
        for i in range(r):
            for j in range(p):
                v = float(3 + 2 * (j if op[1] == "row" else i))
                a[i][j] = a[i][j] + v if op[0] == "add" else a[i][j] - v if op[0] == "sub" else a[i][j] * v


def run_case(case, c):
    k = case["k"]
    if k == "hist":
        s = tuple(case["s"])
        ops = alphabet(s)
        base = table(*s, seed=4)
        for rest in itertools.product(range(len(ops)), repeat=case["depth"] - 1):
            seq = (case["first"],) + rest
            m = M(base)
            a = base.tolist()
            for n, o in enumerate(seq):
                apply_real(m, ops[o])
                apply_ref(a, ops[o])
                c.tick()
            if not same(A(m), np.array(a)):
                c.fail("after %s: got %s expected %s" % ([ops[o] for o in seq], show(m.data), a))
                return
            c.trace()
            c.state(s, tuple(np.ravel(a)))
        c.sample("histories of in-place updates starting with %r on %s" % (ops[case["first"]], s))
    elif k == "select":
        r, p = case["s"]
        a = table(r, p, 2) * 10 + np.arange(r * p).reshape(r, p) / 64
        m = M(a)

        def selections(n):
            small = range(n) if n <= 4 else (0, 1, n // 2, n - 1)
            for length in (1, 2, 3):
                for t in itertools.product(small, repeat=length):
                    yield list(t), list(t)
            for i in (range(n) if n <= 4 else (0, 1, n // 2)):
                for j in (range(i + 1, n + 1) if n <= 4 else (i + 1, n - 1, n)):
                    if i < j:
                        yield (i, j), list(range(i, j))
            yield list(range(n)), list(range(n))
            yield list(reversed(range(n))), list(reversed(range(n)))
        rows, cols = list(selections(r)), list(selections(p))
        for sel, idx in rows:
            expect(c, "get_rows(%r)" % (sel,), outcome(m.get_rows, sel), sel_ref(a, idx, range(p)))
        for sel, idx in cols:
            expect(c, "get_columns(%r)" % (sel,), outcome(m.get_columns, sel), sel_ref(a, range(r), idx))
        for n, (rs, ri) in enumerate(rows):
            for q, (cs, ci) in enumerate(cols):
                if len(rows) * len(cols) > 4000 and (n * 7 + q) % (len(rows) * len(cols) // 4000 + 1):
                    continue
                expect(c, "get_sub_matrix(%r,%r)" % (rs, cs), outcome(m.get_sub_matrix, rs, cs), sel_ref(a, ri, ci))
                c.trace()
            c.state(r, p, str(rs))
        expect(c, "get_rows([%d])" % r, outcome(m.get_rows, [r]), None)
        expect(c, "get_columns([%d])" % p, outcome(m.get_columns, [p]), None)
        expect(c, "get_sub_matrix out of range", outcome(m.get_sub_matrix, [0], (0, p + 1)), None)
        expect(c, "get_sub_matrix out of range", outcome(m.get_sub_matrix, (0, r + 1), [0]), None)
        for ncols in range(min(p, 4)):
            for dele in itertools.combinations(range(min(p, 6)), ncols):
                keep = [j for j in range(p) if j not in dele]
                expect(c, "delete_cols(%r)" % (dele,), outcome(helper.delete_cols, m, list(dele)), sel_ref(a, range(r), keep))
        if p > 1:
            for j in range(p):
                expect(c, "delete_col(%d)" % j, outcome(helper.delete_col, m, j), sel_ref(a, range(r), [x for x in range(p) if x != j]))
        c.check(same(A(m), a), "selection changed the matrix")
    elif k == "views":
        r, p = case["s"]
        a = generic(r, p, 3)
        m = ML(a, case.get("lay", "own"))
        for i in range(r):
            expect(c, "get_row(%d)" % i, outcome(m.get_row, i), a[i:i + 1, :])
            expect(c, "row_as_vector(%d)" % i, outcome(helper.row_as_vector, m, i), a[i:i + 1, :])
            for j in range(p):
                c.check(m.get(i, j) == a[i, j], "get(%d,%d)" % (i, j))
        for j in range(p):
            expect(c, "get_column(%d)" % j, outcome(m.get_column, j), a[:, j:j + 1])
            expect(c, "column_as_vector(%d)" % j, outcome(helper.column_as_vector, m, j), a[:, j:j + 1])
        for n in range(0, r + 3):
            expect(c, "head(%d)" % n, outcome(m.head, n), a[:n, :])
        expect(c, "head()", outcome(m.head), a[:5, :])
        c.check([float(x) for x in m.to_raw_copy_1D()] == [a[i, j] for j in range(p) for i in range(r)], "to_raw_copy_1D is column-major")
        c.check([[float(x) for x in row] for row in m.to_raw_copy_2D()] == a.tolist(), "to_raw_copy_2D")
        expect(c, "copy", outcome(m.copy), a)
        expect(c, "transpose twice", outcome(lambda: m.transpose().transpose()), a)
        if 1 in (r, p):
            for i in range(r * p):
                c.check(m.get_from_vector(i) == a.ravel()[i], "get_from_vector(%d)" % i)
            expect(c, "vector_to_diagonal", outcome(m.vector_to_diagonal), np.diag(a.ravel()))
        else:
            c.check(outcome(m.get_from_vector, 0)[0] == 'err', "get_from_vector must reject a matrix")
            expect(c, "vector_to_diagonal", outcome(m.vector_to_diagonal), None)
            t = M(a)
            c.check(outcome(t.set_row, 0, M(a))[0] == 'err' and same(A(t), a), "set_row must reject a matrix")
            c.check(outcome(t.set_column, 0, M(a))[0] == 'err' and same(A(t), a), "set_column must reject a matrix")
        if p == 1:
            expect(c, "factory.diag", outcome(factory.diag, m), np.diag(a.ravel()))
        c.check(m.shape_string() == '[%d x %d]' % (r, p) and helper.dim(m) == '%d x %d' % (r, p), "shape strings")
        c.check(str(m) == '\n'.join(','.join(str(np.float64(v)) for v in row) for row in a), "str()")
        for f, ref in ((factory.eye_like, np.eye(r, p)), (factory.zeros_like, np.zeros((r, p))), (lambda x: factory.filled_like(x, -2.5), np.full((r, p), -2.5))):
            expect(c, "factory *_like", outcome(f, m), ref)
        # every cell individually settable
        for i in range(r):
            for j in range(p):
                t = M(a)
                t.set(i, j, 99)
                b = a.copy()
                b[i, j] = 99
                c.check(same(A(t), b), "set(%d,%d) of %dx%d" % (i, j, r, p))
                c.trace()
        c.check(outcome(M(a).set, r, 0, 1)[0] == 'err' and outcome(M(a).get, 0, p)[0] == 'err', "out-of-range access must be rejected")
        c.check(same(A(m), a), "reading changed the matrix")
        c.state("views", r, p)
    elif k == "concat":
        r, p = case["s"]
        a = table(r, p, 1)
        for r2, p2 in itertools.product(range(1, 4), repeat=2):
            b = table(r2, p2, 2) + 0.5
            ma, mb = M(a), M(b)
            rows = np.array(a.tolist() + b.tolist()) if p == p2 else None
            cols = np.array([x + y for x, y in zip(a.tolist(), b.tolist())]) if r == r2 else None
            expect(c, "concat_along_rows %s" % ((r, p, r2, p2),), outcome(ma.concat_along_rows, mb), rows)
            expect(c, "concat(0)", outcome(ma.concat, mb, 0), rows)
            expect(c, "concat_along_columns", outcome(ma.concat_along_columns, mb), cols)
            expect(c, "concat(1)", outcome(ma.concat, mb, 1), cols)
            expect(c, "multi_concat(0)", outcome(helper.multi_concat, 0, ma, mb), rows)
            expect(c, "multi_concat(1)", outcome(helper.multi_concat, 1, ma, mb), cols)
            c.check(same(A(ma), a) and same(A(mb), b), "concatenation changed an operand")
            c.state(r, p, r2, p2)
            c.trace()
    elif k == "multiconcat":
        for n in range(1, 7):
            for axis in (0, 1):
                parts = [table(2 if axis else 1 + (i % 3), 1 + (i % 3) if axis else 2, i) for i in range(n)]
                expect(c, "multi_concat of %d" % n, outcome(helper.multi_concat, axis, *[M(x) for x in parts]), np.concatenate(parts, axis))
                c.state(n, axis)
                c.trace()
    elif k == "factory":
        r = case["r"]
        expect(c, "eye(%d)" % r, outcome(factory.eye, r), np.array([[1.0 * (i == j) for j in range(r)] for i in range(r)]))
        expect(c, "zeros(%d)" % r, outcome(factory.zeros, r), np.array([[0.0] * r] * r))
        for p in range(1, 7):
            expect(c, "eye(%d,%d)" % (r, p), outcome(factory.eye, r, p), np.array([[1.0 * (i == j) for j in range(p)] for i in range(r)]))
            expect(c, "zeros(%d,%d)" % (r, p), outcome(factory.zeros, r, p), np.array([[0.0] * p] * r))
            for v in (0, 1, -3.5, 2):
                expect(c, "filled", outcome(factory.filled, r, p, v), np.array([[float(v)] * p] * r))
            for s in (0, 1, -4, 100):
                expect(c, "range(%d,%d,%d)" % (r, p, s), outcome(factory.range, r, p, s),
                       np.array([[float(s + i * p + j) for j in range(p)] for i in range(r)]))
            raw = table(r, p, 9).tolist()
            expect(c, "create(list)", outcome(factory.create, raw), np.array(raw))
            expect(c, "from_raw(array)", outcome(factory.from_raw, np.array(raw)), np.array(raw))
            expect(c, "create(int array)", outcome(factory.create, np.array(raw).astype(int)), np.array(raw))
            src = np.array(raw)
            m = factory.create(src)
            src[:] = 0
            c.check(same(A(m), np.array(raw)), "create must copy its argument")
            c.check(m.data.dtype == np.float64, "create must store doubles")
            c.state(r, p)
            c.trace()
        v = [1.5 * i - 2 for i in range(r)]
        expect(c, "from_row", outcome(factory.from_row, v), np.array([v]))
        expect(c, "from_column", outcome(factory.from_column, v), np.array([[x] for x in v]))
        expect(c, "diag", outcome(factory.diag, M([[x] for x in v])), np.diag(v))
        expect(c, "create_spectrum", outcome(factory.create_spectrum, [10 * x for x in v], v), np.array([[10 * x, x] for x in v]))
        expect(c, "create_spectrum unequal", outcome(factory.create_spectrum, v + [1], v), None)
        c.check(outcome(Matrix, np.zeros((2, 2, 2)))[0] == 'err', "3-dimensional data must be rejected")
        expect(c, "Matrix(1d)", outcome(Matrix, np.array(v)), np.array([v]))
        expect(c, "Matrix(0d)", outcome(Matrix, np.array(3.5)), np.array([[3.5]]))
    elif k == "eq":
        mats = []
        for sh in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for cont in itertools.product((0.0, 1.0, float('inf')), repeat=sh[0] * sh[1]):
                mats.append(np.array(cont).reshape(sh))
        for a in mats:
            ma = M(a)
            for b in mats:
                mb = M(b)
                ref = a.shape == b.shape and bool((a == b).all())
                c.check(bool(ma == mb) == ref, lambda: "%s == %s" % (a.tolist(), b.tolist()))
                if np.isfinite(a).all() and np.isfinite(b).all():
                    c.check(bool(helper.equal(ma, mb)) == ref, lambda: "equal(%s,%s)" % (a.tolist(), b.tolist()))
                c.trace()
            c.check(not (ma == None) and not (ma == 3) and ma == ma, "== with other objects")  # noqa
            c.state(a.shape, tuple(a.ravel()))
        for eps in (0.0, 0.1, 0.25, 1.0):
            for d in (0.0, 0.0625, 0.125, 0.25, 0.5, 1.0, 2.0):
                for pos in range(4):
                    for sg in (1, -1):
                        a = table(2, 2, 1)
                        b = a.copy()
                        b[pos // 2, pos % 2] += sg * d
                        c.check(bool(helper.equal(M(a), M(b), eps)) == (d <= eps), "equal with epsilon %r difference %r at %d" % (eps, d, pos))
    elif k == "each":
        # every single in-place update there is on a shape, on every memory layout
        r, p = case["s"]
        base = table(r, p, 6)
        ops = [("set", i, j, v) for i in range(r) for j in range(p) for v in (7.25,)]
        idx = lambda n: range(n) if n <= 7 else (0, 1, 2, n // 2, n - 2, n - 1)
        ops += [("set_row", i, o, n) for i in idx(r) for o in ("row", "col") for n in (1, 2, p - 1, p, p + 1, p + 3) if n > 0]
        ops += [("set_column", j, o, n) for j in idx(p) for o in ("row", "col") for n in (1, 2, r - 1, r, r + 1, r + 3) if n > 0]
        ops += [(n, o) for n in ("add", "sub", "mul") for o in ("row", "col") if not (o == "col" and r == 1)]
        ops += [("fill", v) for v in (0, -2.5, 1)]
        for op in ops:
            m, a = ML(base, case["lay"]), base.tolist()
            root = m.data.base if m.data.base is not None else m.data
            outside = float(np.sum(root)) - float(np.sum(m.data)) if root.size > m.data.size else 0.0
            kind, err = outcome(apply_real, m, op)
            apply_ref(a, op)
            c.tick()
            if kind == 'err':
                c.fail("%r on %s (%s): raised %r" % (op, case["s"], case["lay"], err))
            elif not same(A(m), np.array(a)):
                c.fail("%r on %s (%s): got %s expected %s" % (op, case["s"], case["lay"], show(m.data), a))
            elif root.size > m.data.size and m.data.base is not None and float(np.sum(root)) - float(np.sum(m.data)) != outside:
                c.fail("%r on %s (%s) wrote outside the matrix" % (op, case["s"], case["lay"]))
            c.trace()
        c.state("each", r, p, case["lay"])
    elif k == "neareq":
        r, p = case["s"]
        a = generic(r, p, 5)
        a[a == 0] = 1.0
        for i in range(r):
            for j in range(p):
                for f in (np.nextafter(1, 2), np.nextafter(1, 0), 1 + 1e-12, 1 + 1e-9, 1 - 1e-7, 1 + 1e-5, -1.0):
                    b = a.copy()
                    b[i, j] *= f
                    c.check(bool(M(a) == M(b)) == (b[i, j] == a[i, j]), "matrices that differ by a factor of %r at (%d,%d) compared" % (f, i, j))
                    c.check(bool(M(a) != M(b)) == (b[i, j] != a[i, j]), "matrices that differ by a factor of %r at (%d,%d) compared with !=" % (f, i, j))
                    c.check(bool(helper.equal(M(a), M(b))) == (b[i, j] == a[i, j]), "helper.equal on a difference by a factor of %r at (%d,%d)" % (f, i, j))
                    c.trace()
                for la in LAYOUTS:
                    c.check(bool(ML(a, la) == M(a)), "a matrix equals its copy in another memory layout")
        c.state("neareq", r, p)
    elif k == "bigset":
        a = table(20, 15, 3)
        m, ref = M(a), a.copy()
        for i in range(20):
            m.set_row(i, M(np.arange(15).reshape(1, 15) + i))
            ref[i, :] = np.arange(15) + i
            c.check(same(A(m), ref), "set_row %d of 20x15" % i)
        for j in range(15):
            m.set_column(j, M(np.arange(20).reshape(20, 1) * j))
            ref[:, j] = np.arange(20) * j
            c.check(same(A(m), ref), "set_column %d of 20x15" % j)
