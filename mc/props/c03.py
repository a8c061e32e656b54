"""C03: producing operations leave operands alone, results and operands never share storage, results are current."""
import io

import numpy as np

from wai.ma.core.matrix import Matrix, factory, helper
from wai.ma.core import utils

from ..util import M, ML, LAYOUTS, A, generic, same, close, show

META = {
    "bounds": "7 shapes x 2 cache states; every ordered pair of ~90 producing calls on the same operands, followed by an in-place "
              "change (raw write, and each public in-place operation in turn) of any one of the matrices involved; every query and every in-place "
              "operation (legal and illegal arguments) for effects on other matrices; every producing call and "
              "query on 13 shapes x 6 memory layouts x 6 kinds of contents x (two operands, one operand twice); ordered triples of chained producers "
              "on 2 shapes (thorough)",
    "oracle": "bitwise snapshots of every live matrix; recomputation on a fresh copy",
    "assumptions": ["Matrix(ndarray) adopts the array it is given (documented constructor); the sharing rules concern Matrix operations"],
}

SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 3), (2, 4), (5, 2)]


def base(s):
    r, p = s
    a = generic(r, p, 3)
    if r == p:
        a = (a + a.T) / 2 + np.diag(np.arange(1, r + 1) * 11.0)
    b = generic(r, p, 8) + 0.5
    return a, b


def producers(s):
    r, p = s
    P = []

    def add(name, f):
        P.append((name, f))
    for n in ("get_eigenvectors", "get_eigenvectors_sorted_ascending", "get_eigenvectors_sorted_descending", "get_dominant_eigenvector",
              "get_eigenvalue_decomposition_V", "get_eigenvalue_decomposition_D", "get_eigenvalues", "get_eigenvalues_sorted_descending",
              "get_eigenvalues_sorted_ascending", "inverse"):
        if r == p or n == "inverse":
            add(n, lambda a, b, n=n: getattr(a, n)())
    if r == p:
        add("get_eigenvectors(True)", lambda a, b: a.get_eigenvectors(True))
        add("solve", lambda a, b: helper.solve(a, b))
    for n in ("svd_U", "svd_V", "svd_S", "get_singular_values", "transpose", "t", "copy", "sqrt", "exp", "tanh", "sign", "abs", "pseudo_inverse", "diag", "normalized"):
        add(n, lambda a, b, n=n: getattr(a, n)())
    add("normalized1", lambda a, b: a.normalized(1))
    for ax in (-1, 0, 1):
        add("sum%d" % ax, lambda a, b, ax=ax: a.sum(ax))
        add("mean%d" % ax, lambda a, b, ax=ax: a.mean(ax))
    add("mul", lambda a, b: a.mul(b.transpose()))
    add("mul eye", lambda a, b: a.mul(factory.eye(p)))
    for v in (2, 1, 0):
        add("mul%d" % v, lambda a, b, v=v: a.mul(v))
        add("add%d" % v, lambda a, b, v=v: a.add(v))
        add("sub%d" % v, lambda a, b, v=v: a.sub(v))
        add("pow%d" % v, lambda a, b, v=v: a.pow_elementwise(v))
        if v:
            add("div%d" % v, lambda a, b, v=v: a.div(v))
    add("mul1.0", lambda a, b: a.mul(1.0))
    for n in ("add", "sub", "mul_elementwise", "div_elementwise", "concat_along_rows", "concat_along_columns"):
        add(n, lambda a, b, n=n: getattr(a, n)(b))
        add(n + " self", lambda a, b, n=n: getattr(a, n)(a))
    for n in ("add_by_vector", "sub_by_vector", "mul_by_vector"):
        add(n + " row", lambda a, b, n=n: getattr(a, n)(b.get_row(0)))
        add(n + " col", lambda a, b, n=n: getattr(a, n)(b.get_column(0)))
    add("add_by_vector 0", lambda a, b: a.add_by_vector(factory.zeros(1, p)))
    add("scale_by_row_vector", lambda a, b: a.scale_by_row_vector(b.get_row(0).transpose()))
    if (r, p) != (1, 1) and r > 1:
        add("scale_by_column_vector", lambda a, b: a.scale_by_column_vector(b.get_column(0)))
    for i in range(r):
        add("get_row%d" % i, lambda a, b, i=i: a.get_row(i))
        add("row_as_vector%d" % i, lambda a, b, i=i: helper.row_as_vector(a, i))
    for j in range(p):
        add("get_column%d" % j, lambda a, b, j=j: a.get_column(j))
        add("column_as_vector%d" % j, lambda a, b, j=j: helper.column_as_vector(a, j))
    add("get_rows all", lambda a, b: a.get_rows((0, r)))
    add("get_rows list", lambda a, b: a.get_rows(list(range(r))))
    add("get_columns all", lambda a, b: a.get_columns((0, p)))
    add("get_columns 0", lambda a, b: a.get_columns([0]))
    add("get_sub_matrix", lambda a, b: a.get_sub_matrix((0, r), (0, p)))
    add("get_sub_matrix list", lambda a, b: a.get_sub_matrix(list(range(r)), list(range(p))))
    add("head", lambda a, b: a.head())
    add("head1", lambda a, b: a.head(1))
    add("clip", lambda a, b: a.clip(-3, 3))
    add("clip wide", lambda a, b: a.clip(-1e9, 1e9))
    add("clip_lower", lambda a, b: a.clip_lower(-1e9))
    add("clip_upper", lambda a, b: a.clip_upper(1e9))
    add("apply", lambda a, b: a.apply_elementwise(lambda v: v))
    if r == 1 or p == 1:
        add("vector_to_diagonal", lambda a, b: a.vector_to_diagonal())
        if p == 1:
            add("factory.diag", lambda a, b: factory.diag(a))
    add("create", lambda a, b: factory.create(a.data))
    add("from_raw", lambda a, b: factory.from_raw(a.data))
    add("zeros_like", lambda a, b: factory.zeros_like(a))
    add("filled_like", lambda a, b: factory.filled_like(a, 3))
    add("eye_like", lambda a, b: factory.eye_like(a))
    add("rand_like", lambda a, b: factory.rand_like(a, 3))
    add("zeros", lambda a, b: factory.zeros(r, p))
    add("eye", lambda a, b: factory.eye(r, p))
    add("delete_cols none", lambda a, b: helper.delete_cols(a, []))
    if p > 1:
        add("delete_col", lambda a, b: helper.delete_col(a, p - 1))
    add("multi_concat 1", lambda a, b: helper.multi_concat(0, a))
    add("multi_concat", lambda a, b: helper.multi_concat(1, a, b))
    add("helper.inverse", lambda a, b: helper.inverse(a))
    for n in ("row_means", "column_means", "row_stdevs", "column_stdevs"):
        add(n, lambda a, b, n=n: getattr(helper, n)(a))
    return P


def queries(s):
    r, p = s
    Q = [("norm1", lambda a, b: a.norm1()), ("norm2", lambda a, b: a.norm2()), ("norm2_squared", lambda a, b: a.norm2_squared()),
         ("sum", lambda a, b: a.sum()), ("mean", lambda a, b: a.mean()), ("median", lambda a, b: a.median()), ("max", lambda a, b: a.max()),
         ("trace", lambda a, b: a.trace()), ("nan", lambda a, b: a.contains_NaN()), ("any", lambda a, b: a.any(lambda v: v > 3)),
         ("all", lambda a, b: a.all(lambda v: v > 3)), ("which", lambda a, b: a.which(lambda v: v > 0)), ("str", lambda a, b: str(a)),
         ("eq", lambda a, b: a == b), ("equal", lambda a, b: helper.equal(a, b, 0.5)), ("raw1", lambda a, b: a.to_raw_copy_1D()),
         ("raw2", lambda a, b: a.to_raw_copy_2D()), ("shape", lambda a, b: a.shape_string()), ("lines", lambda a, b: helper.to_lines(a, True, ",", 3)),
         ("to_string", lambda a, b: helper.to_string(a)), ("write", lambda a, b: helper.write(a, io.StringIO(), True, ",", 3)),
         ("ser", lambda a, b: a.serialise_state(io.BytesIO())), ("get", lambda a, b: a.get(r - 1, p - 1)),
         ("mean0", lambda a, b: helper.mean(a, 0)), ("stdev", lambda a, b: helper.stdev(a, 0, False)), ("is_square", lambda a, b: a.is_square()),
         ("sort row", lambda a, b: utils.sort(list(a.data[0]))), ("dim", lambda a, b: helper.dim(a))]
    if r == 1 or p == 1:
        Q += [("dot", lambda a, b: a.vector_dot(b)), ("where", lambda a, b: a.where_vector(lambda v: v > 0)), ("gfv", lambda a, b: a.get_from_vector(0))]
    if r == p == 1:
        Q.append(("as_real", lambda a, b: a.as_real()))
    return Q


def mutators(s):
    r, p = s
    out = [("raw", lambda m: m.data.__setitem__(Ellipsis, -77.25)),
           ("set", lambda m: m.set(m.num_rows() - 1, m.num_columns() - 1, -5.5)),
           ("set0", lambda m: m.set(0, 0, 6.75)),
           ("set_row", lambda m: m.set_row(0, M(np.full((1, m.num_columns()), 9.25)))),
           ("set_column", lambda m: m.set_column(m.num_columns() - 1, M(np.full((m.num_rows(), 1), -9.25)))),
           ("fill", lambda m: helper.fill_diagonal(m, 123.5))]
    for n in ("add", "sub", "mul", "div"):
        out.append((n + " row", lambda m, n=n: getattr(m, n + "_by_vector_modify")(M(np.full((1, m.num_columns()), 1.5)))))
        out.append((n + " col", lambda m, n=n: getattr(m, n + "_by_vector_modify")(M(np.full((m.num_rows(), 1), 2.5)))))
    return out


ILLEGAL = [
    ("set out", lambda m, v: m.set(m.num_rows(), 0, 1)),
    ("set_row out", lambda m, v: m.set_row(m.num_rows(), v)),
    ("set_row matrix", lambda m, v: m.set_row(0, M(np.ones((2, 2))))),
    ("set_column matrix", lambda m, v: m.set_column(0, M(np.ones((2, 2))))),
    ("add size", lambda m, v: m.add_by_vector_modify(M(np.ones((1, m.num_columns() + 1))))),
    ("sub size", lambda m, v: m.sub_by_vector_modify(M(np.ones((m.num_rows() + 1, 1))))),
    ("mul matrix", lambda m, v: m.mul_by_vector_modify(M(np.ones((2, 2))))),
]


def cases(tier):
    for s in SHAPES:
        n = len(producers(s))
        for warm in (0, 1):
            for i in range(n):
                yield {"k": "pair", "s": s, "warm": warm, "i": i}
            yield {"k": "query", "s": s, "warm": warm}
        yield {"k": "inplace", "s": s}
    for s in SHAPES + WIDE:
        for lay in LAYOUTS:
            for content in CONTENTS:
                for alias in (0, 1):
                    yield {"k": "layout", "s": s, "lay": lay, "content": content, "alias": alias}
    if tier == "thorough":
        for s in ((3, 1), (2, 2)):
            for i in range(len(producers(s))):
                yield {"k": "chain", "s": s, "warm": 1, "i": i}


def start(s, warm):
    a0, b0 = base(s)
    a, b = M(a0), M(b0)
    if warm:
        for m in (a, b):
            m.svd_U()
            if s[0] == s[1]:
                m.get_eigenvalues()
    return a, b


def call(f, a, b):
    try:
        r = f(a, b)
    except Exception:
        return None
    return r if isinstance(r, Matrix) else None


def intact(c, label, live):
    """live: list of (name, matrix, snapshot)"""
    for name, m, snap in live:
        if m is None:
            continue
        c.tick()
        if not same(m.data, snap):
            c.fail("%s: %s changed from %s to %s" % (label, name, show(snap), show(m.data)))
            return False
    return True


def pair(case, c):
    s, warm, i = tuple(case["s"]), case["warm"], case["i"]
    P = producers(s)
    muts = mutators(s)
    name1, f1 = P[i]
    for jj, (name2, f2) in enumerate(P):
        # the raw write detects every overlap; the public in-place operations take turns
        mine = [muts[0], muts[1 + (i + jj) % (len(muts) - 1)]] if jj != i else muts
        for mname, mut in mine:
            for target in ("a", "b", "r1", "r2"):
                a, b = start(s, warm)
                live = [("operand a", a, A(a)), ("operand b", b, A(b))]
                r1 = call(f1, a, b)
                if not intact(c, "%s %s" % (s, name1), live):
                    return
                if r1 is None:
                    return
                if r1 is a or r1 is b:
                    c.fail("%s %s returned its operand itself" % (s, name1))
                    return
                s1 = A(r1)
                live.append(("first result", r1, s1))
                r2 = call(f2, a, b)
                if not intact(c, "%s %s then %s" % (s, name1, name2), live):
                    return
                if r2 is None:
                    break
                if r2 is a or r2 is b or r2 is r1:
                    c.fail("%s %s then %s returned a matrix that already existed" % (s, name1, name2))
                    return
                s2 = A(r2)
                live.append(("second result", r2, s2))
                m = {"a": a, "b": b, "r1": r1, "r2": r2}[target]
                try:
                    mut(m)
                except (ValueError, TypeError):
                    if mname == "raw":
                        m.data = np.zeros((1, 1))   # a read-only result cannot be shared for writing
                    else:
                        continue
                label = "%s (warm=%d) %s, then %s, then %s on %s" % (s, warm, name1, name2, mname, target)
                if not intact(c, label, [x for x in live if x[1] is not m]):
                    return
                c.trace()
                c.state(s, warm, i, jj, mname, target)
                if target in ("r1", "r2"):
                    again = call(f1, a, b)
                    c.check(again is not None and close(again.data.real, s1.real, 1e-9, max(1.0, float(np.max(np.abs(s1.real))))), lambda: "%s: %s now returns %s instead of %s" % (label, name1, again and show(again.data), show(s1)))
                elif mname != "raw":
                    fa, fb = M(a.data), M(b.data)
                    want = call(f1, fa, fb)
                    got = call(f1, a, b)
                    if want is None or got is None:
                        c.check((want is None) == (got is None), lambda: "%s: %s availability differs from a fresh copy" % (label, name1))
                    elif np.isrealobj(want.data) and np.isrealobj(got.data):
                        c.check(close(got.data, want.data, 1e-7, max(1.0, float(np.nanmax(np.abs(np.where(np.isfinite(want.data), want.data, 0)))))), lambda: "%s: %s returns %s for the changed matrix, %s for a fresh copy of it"
                                % (label, name1, show(got.data), show(want.data)))
                if c.fails:
                    return


def query(case, c):
    s, warm = tuple(case["s"]), case["warm"]
    Q = queries(s)
    for n1, q1 in Q:
        for n2, q2 in Q:
            a, b = start(s, warm)
            live = [("operand a", a, A(a)), ("operand b", b, A(b))]
            v1 = q1(a, b)
            if not intact(c, "%s query %s" % (s, n1), live):
                return
            v2 = q2(a, b)
            if not intact(c, "%s query %s then %s" % (s, n1, n2), live):
                return
            if isinstance(v1, list):
                keep = repr(v1)
                for row in v1:
                    if isinstance(row, list):
                        row[:] = [0.0] * len(row)
                v1[:] = [0] * len(v1)
                c.check(repr(q1(a, b)) == keep, "%s %s: changing the returned list changed the matrix" % (s, n1))
                intact(c, "%s %s list" % (s, n1), live)
            c.trace()
            c.state(s, warm, n1, n2)
    # a factory never hands out something it keeps
    src = [[1.0, 2.0], [3.0, 4.0]]
    m = factory.create(src)
    src[0][0] = 9.0
    c.check(m.get(0, 0) == 1.0, "factory.create shares the list")
    arr = np.array(src)
    for f in (factory.create, factory.from_raw):
        m = f(arr)
        arr[1, 1] = -1.0
        c.check(m.get(1, 1) == 4.0, "factory.create shares the array")
        m.set(0, 1, 50)
        c.check(arr[0, 1] == 2.0, "factory.create shares the array")
        arr[1, 1] = 4.0
    for f in (factory.from_row, factory.from_column):
        l = [1.0, 2.0, 3.0]
        m = f(l)
        l[0] = 7.0
        c.check(m.get(0, 0) == 1.0, "from_row/from_column shares the list")
        m.set(0, 0, 8)
        c.check(l == [7.0, 2.0, 3.0], "from_row/from_column shares the list")


def inplace(case, c):
    """Every in-place operation changes its own matrix only, and copies what it is given."""
    s = tuple(case["s"])
    r, p = s
    for n1, f1 in (("set_row", lambda m, v: m.set_row(0, v)), ("set_column", lambda m, v: m.set_column(0, v.transpose() if r == 99 else v)),
                   ("add", lambda m, v: m.add_by_vector_modify(v)), ("mul", lambda m, v: m.mul_by_vector_modify(v)),
                   ("sub", lambda m, v: m.sub_by_vector_modify(v)), ("div", lambda m, v: m.div_by_vector_modify(v))):
        for orient in ("row", "col"):
            vec = M(np.arange(1.0, p + 1).reshape(1, p)) if orient == "row" else M(np.arange(1.0, r + 1).reshape(r, 1))
            a, b = start(s, 1)
            snap_v, snap_b = A(vec), A(b)
            try:
                f1(a, vec)
            except ValueError:
                continue
            after = A(a)
            intact(c, "%s in-place %s %s" % (s, n1, orient), [("vector", vec, snap_v), ("bystander", b, snap_b)])
            vec.data[...] = 55.0
            intact(c, "%s in-place %s %s, vector changed later" % (s, n1, orient), [("matrix", a, after)])
            a.data[...] = 66.0
            c.check(same(vec.data, np.full(vec.data.shape, 55.0)), "%s in-place %s: matrix and vector share storage" % (s, n1))
            c.trace()
            c.state(s, n1, orient)
    a, b = start(s, 1)
    for i in range(r):
        for k in range(r):
            a, b = start(s, 0)
            want = A(a)
            want[i] = want[k]
            a.set_row(i, a.get_row(k))
            c.check(same(a.data, want), "%s set_row(%d, get_row(%d))" % (s, i, k))
            a.set(i, 0, 99)
            if i != k:
                c.check(a.get(k, 0) == want[k, 0], "%s rows %d and %d share storage after set_row" % (s, i, k))
    for name, f in ILLEGAL:
        a, b = start(s, 0)
        v = M(np.ones((1, p)))
        live = [("matrix", a, A(a)), ("vector", v, A(v))]
        try:
            f(a, v)
        except Exception:
            intact(c, "%s rejected %s" % (s, name), live)
            c.state(s, name)


CONTENTS = ("generic", "zeros", "positive", "nan", "huge", "integers")
WIDE = [(4, 4), (8, 3), (3, 8), (1, 20), (20, 1), (17, 12)]


def fill(s, content):
    a, b = base(s)
    if content == "zeros":
        a, b = a * 0, b * 0
    elif content == "positive":
        a, b = np.abs(a) + 0.25, np.abs(b) + 0.25
    elif content == "nan":
        a[-1, -1] = np.nan
        b[0, 0] = np.inf
    elif content == "huge":
        a, b = a * 1e160, b * 1e160
    elif content == "integers":
        a, b = np.round(a), np.round(b)
    return a, b


def layout(case, c):
    """One producing call on operands in any memory layout (or one operand twice), then a change of any matrix involved."""
    s = tuple(case["s"])
    a0, b0 = fill(s, case["content"])
    for name, f in producers(s) + [(n, q) for n, q in queries(s) if case["content"] != "nan" or n not in ("equal",)]:
        a = ML(a0, case["lay"])
        b = a if case["alias"] else ML(b0, case["lay"])
        live = [("operand a", a, A(a)), ("operand b", b, A(b))]
        label = "%s %s %s%s: %s" % (s, case["lay"], case["content"], ", both operands the same," if case["alias"] else "", name)
        r = call(f, a, b)
        if not intact(c, label, live):
            return
        c.state(s, case["lay"], case["content"], case["alias"], name)
        c.trace()
        if r is None:
            continue
        if r is a or r is b:
            c.fail(label + " returned its operand itself")
            return
        snap = A(r)
        try:
            r.data[...] = -77.25
        except ValueError:
            pass
        if not intact(c, label + ", result changed", live):
            return
        r = call(f, a, b)
        c.check(r is not None and (same(r.data, snap) or not np.isrealobj(snap)), lambda: "%s gives %s the second time, %s the first" % (label, r is not None and show(r.data), show(snap)))
        for m in (a, b):
            m.data[...] = 3.0625
        intact(c, label + ", operand changed", [("result", r, snap)])
        if c.fails:
            return


def chain(case, c):
    """r1 = f1(a, b); r2 = f2(r1, r1); change any of them."""
    s, warm, i = tuple(case["s"]), case["warm"], case["i"]
    name1, f1 = producers(s)[i]
    a, b = start(s, warm)
    r1 = call(f1, a, b)
    if r1 is None or not np.isrealobj(r1.data):
        return
    for name2, f2 in producers(r1.data.shape):
        for name3, f3 in producers(r1.data.shape):
            for target in (1, 2):
                a, b = start(s, warm)
                r1 = call(f1, a, b)
                r2 = call(f2, r1, r1)
                if r2 is None:
                    break
                r3 = call(f3, r1, r2) if r2.data.shape == r1.data.shape else call(f3, r1, r1)
                ms = [("a", a), ("r1", r1), ("r2", r2), ("r3", r3)]
                if ms[target][1] is None:
                    continue
                if len({id(m) for n, m in ms if m is not None}) != len([m for n, m in ms if m is not None]):
                    c.fail("%s %s, %s, %s: an operation returned an existing matrix" % (s, name1, name2, name3))
                    return
                live = [(n, m, A(m)) for n, m in ms if m is not None and m is not ms[target][1]]
                try:
                    ms[target][1].data[...] = -77.25
                except ValueError:
                    continue
                if not intact(c, "%s %s, %s of it, %s of it, change %s" % (s, name1, name2, name3, ms[target][0]), live):
                    return
                c.trace()
                c.state(s, warm, i, name2, name3, target)


def run_case(case, c):
    c.sample(case)
    {"pair": pair, "query": query, "inplace": inplace, "chain": chain, "layout": layout}[case["k"]](case, c)
