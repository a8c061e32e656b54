"""C06: text round trip."""
import contextlib
import io
import itertools
import math
import os
import shutil
import tempfile

import numpy as np

from wai.ma.core.matrix import helper
from wai.ma.core import utils

from ..util import M, A, generic, show

META = {
    "bounds": "26 special values in every position of a 2x3 matrix, all shapes up to 4x5 plus 300x2, 2x300, x 8 separators x header x 12 precisions x 2 notations x "
              "file/stream; all placements of 1 and 2 unreadable cells, short and long rows in a 3x3 file; all subsets of unreadable cells of 5 shapes x 8 kinds of cell x 3 separators x header x final newline; "
              "values of every 6th (quick) / 2nd (thorough) power of ten from 1e-320 to 1e308; rewriting over longer files",
    "oracle": "the written values; rounding error at most half a unit of the last requested digit; an independent split of the written text",
}

VALUES = [0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 1 / 3, 2 / 3, 0.5, 1.5, 2.5, -0.0004, 9.9996, 0.99999999, 123456.789, -98765.4321, 1e15, 1e16 + 2, -1e22, 1e300, -1e-300,
          5e-324, math.pi, float("nan"), float("inf"), float("-inf")]
SEPS = [",", "\t", ";", " ", "|", ", ", "::", "_"]
PRECS = [-1, 0, 1, 2, 3, 4, 6, 9, 12, 15, 17, 20]


def cases(tier):
    for sep in SEPS:
        for header in (False, True):
            for nd in PRECS:
                for sci in (False, True):
                    yield {"k": "fmt", "sep": sep, "header": header, "nd": nd, "sci": sci}
    for r in range(1, 5):
        for p in range(1, 6):
            yield {"k": "shape", "s": (r, p)}
    for s in ((300, 2), (2, 300), (101, 11)):
        yield {"k": "shape", "s": s}
    for header in (False, True):
        yield {"k": "bad", "header": header}
    for shape in ((3, 3), (1, 4), (4, 2), (2, 3), (5, 1)):
        for bad in ("", "abc", " ", "NA", "-", "1e", "0x10", "#"):
            for sep in (",", "\t", ";"):
                yield {"k": "subsets", "s": shape, "bad": bad, "sep": sep}
    yield {"k": "empty"}
    yield {"k": "overwrite"}
    yield {"k": "number"}
    for e in range(-320, 309, 2 if tier == "thorough" else 6):
        yield {"k": "magnitude", "e": e}


def scratch():
    return tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))


def value_ok(v, w, nd, sci):
    """w was read back for v."""
    if math.isnan(v):
        return math.isnan(w)
    if math.isinf(v) or math.isinf(w):
        return v == w
    if nd == -1:
        return v == w
    if sci:
        if v == 0:
            return w == 0
        e = math.floor(math.log10(abs(v))) if abs(v) >= 1e-307 else -308
        return abs(v - w) <= 0.5000001 * 10.0 ** (e - nd) + 5e-324 + abs(v) * 2e-16
    return abs(v - w) <= 0.5000001 * 10.0 ** -nd + abs(v) * 2e-16


def lines_ok(c, lines, a, sep, header, nd, sci, what):
    r, p = a.shape
    if len(lines) != r + (1 if header else 0):
        c.fail("%s: %d lines" % (what, len(lines)))
        return
    if header:
        c.check(len(lines[0].split(sep)) == p and all(x.strip() for x in lines[0].split(sep)) and len(set(lines[0].split(sep))) == p, "%s: header %r" % (what, lines[0]))
    for i, line in enumerate(lines[1:] if header else lines):
        cells = line.split(sep)
        c.tick()
        if len(cells) != p:
            c.fail("%s: line %r" % (what, line))
            return
        for j, cell in enumerate(cells):
            w = float(cell)
            if not value_ok(a[i, j], w, nd, sci):
                c.fail("%s: %r written as %r" % (what, a[i, j], cell))
                return
            if math.isfinite(a[i, j]):
                if not sci and nd > 0 and ("." not in cell or len(cell.split(".")[1]) != nd or "e" in cell.lower()):
                    c.fail("%s: %r written as %r, not with %d decimals" % (what, a[i, j], cell, nd))
                    return
                if sci and "e" not in cell.lower():
                    c.fail("%s: %r written as %r, not in scientific notation" % (what, a[i, j], cell))
                    return


def back_ok(c, m, a, nd, sci, what):
    b = A(m)
    c.tick()
    if b.shape != a.shape:
        c.fail("%s: read back as %s instead of %s" % (what, b.shape, a.shape))
        return
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if not value_ok(a[i, j], b[i, j], nd, sci):
                c.fail("%s: cell (%d,%d) %r came back as %r" % (what, i, j, a[i, j], b[i, j]))
                return


def roundtrip(c, a, sep, header, nd, sci, d, files=True):
    what = "sep=%r header=%s num_dec=%d scientific=%s %s" % (sep, header, nd, sci, show(a))
    m = M(a)
    lines_ok(c, helper.to_lines(m, header, sep, nd, sci), a, sep, header, nd, sci, what + " to_lines")
    out = io.StringIO()
    helper.write(m, out, header, sep, nd, sci)
    text = out.getvalue()
    lines_ok(c, text.split("\n")[:-1] if text.endswith("\n") else text.split("\n"), a, sep, header, nd, sci, what + " stream")
    back_ok(c, helper.read(io.StringIO(text), header, sep), a, nd, sci, what + " stream")
    if files:
        f = os.path.join(d, "m.csv")
        helper.write(m, f, header, sep, nd, sci)
        with open(f, newline="") as fp:
            c.check(fp.read() == text, what + ": file and stream differ")
        back_ok(c, helper.read(f, header, sep), a, nd, sci, what + " file")
        with open(f) as fp:
            back_ok(c, helper.read(fp, header, sep), a, nd, sci, what + " open file")
    c.check(np.array_equal(m.data, a, equal_nan=True), what + ": writing changed the matrix")
    c.trace()
    c.state(sep, header, nd, sci, a.tobytes())


def run_case(case, c):
    k = case["k"]
    c.sample(case)
    d = scratch()
    try:
        if k == "fmt":
            base = generic(2, 3, 4)
            for v in VALUES:
                for i in range(2):
                    for j in range(3):
                        a = base.copy()
                        a[i, j] = v
                        roundtrip(c, a, case["sep"], case["header"], case["nd"], case["sci"], d, files=(i, j) in ((0, 0), (1, 2)))
                        if c.fails:
                            return
                roundtrip(c, np.array([[v]]), case["sep"], case["header"], case["nd"], case["sci"], d)
        elif k == "shape":
            r, p = case["s"]
            for a in (generic(r, p, 6), generic(r, p, 7, 1e-5), np.arange(r * p, dtype=float).reshape(r, p)):
                for sep in SEPS:
                    for header in (False, True):
                        for nd in (-1, 3):
                            for sci in (False, True):
                                roundtrip(c, a, sep, header, nd, sci, d)
                                if c.fails:
                                    return
            a = generic(r, p, 6)
            back_ok(c, helper.read(io.StringIO(helper.to_string(M(a))), True, "\t"), a, 6, False, "to_string")
            back_ok(c, helper.read(io.StringIO(helper.to_string(M(a), False, ";", 3)), False, ";"), a, 3, False, "to_string")
        elif k == "bad":
            header = case["header"]
            cells = [(i, j) for i in range(3) for j in range(3)]
            for bad in ("abc", "", "1.2.3", "--4"):
                for n in (1, 2):
                    for which in itertools.combinations(cells, n):
                        g = [[str(10 * i + j + 1) for j in range(3)] for i in range(3)]
                        want = np.array([[float(x) for x in row] for row in g])
                        for i, j in which:
                            g[i][j] = bad
                            want[i, j] = 0
                        text = ("a,b,c\n" if header else "") + "".join(",".join(row) + "\n" for row in g)
                        for tail in (text, text[:-1]):
                            err = io.StringIO()
                            with contextlib.redirect_stderr(err):
                                m = helper.read(io.StringIO(tail), header, ",")
                            c.check(np.array_equal(A(m), want), "reading %r gave %s" % (tail, A(m).tolist()))
                            c.check(err.getvalue() != "", "unreadable cells in %r were not reported" % tail)
                        c.trace()
                        c.state(header, bad, which)
            for lens in itertools.product(range(1, 5), repeat=2):
                g = [[1.0, 2.0, 3.0]] + [[float(10 * i + j + 1) for j in range(n)] for i, n in enumerate(lens, 1)]
                text = ("h\n" if header else "") + "".join(";".join(str(x) for x in row) + "\n" for row in g)
                m = A(helper.read(io.StringIO(text), header, ";"))
                want = np.array([[row[j] if j < len(row) else 0.0 for j in range(3)] for row in g])
                c.check(np.array_equal(m, want), "reading %r gave %s" % (text, m.tolist()))
                c.state(header, lens)
        elif k == "subsets":
            # every subset of the cells unreadable, with and without header and final newline
            r, p = case["s"]
            bad, sep = case["bad"], case["sep"]
            cells = [(i, j) for i in range(r) for j in range(p)]
            for mask in range(1, 1 << len(cells)):
                g = [[str(10 * i + j + 1) for j in range(p)] for i in range(r)]
                want = np.array([[float(x) for x in row] for row in g])
                for n, (i, j) in enumerate(cells):
                    if mask >> n & 1:
                        g[i][j] = bad
                        want[i, j] = 0
                for header in (False, True):
                    text = (sep.join("h%d" % j for j in range(p)) + "\n" if header else "") + "\n".join(sep.join(row) for row in g)
                    last_blank = g[-1] == [""] and p == 1
                    for tail in ((text + "\n",) if last_blank else (text, text + "\n")):
                        err = io.StringIO()
                        with contextlib.redirect_stderr(err):
                            m = helper.read(io.StringIO(tail), header, sep)
                        c.check(np.array_equal(A(m), want), lambda: "reading %r gave %s" % (tail, A(m).tolist()))
                        c.check(err.getvalue() != "", "unreadable cells in %r were not reported" % tail)
                    if c.fails:
                        return
                    c.trace()
                c.state(r, p, bad, sep, mask)
        elif k == "empty":
            for text, header in (("", False), ("", True), ("a,b\n", True)):
                f = os.path.join(d, "e.csv")
                open(f, "w").write(text)
                for src in (f, io.StringIO(text)):
                    try:
                        helper.read(src, header, ",")
                        c.fail("reading %r (header=%s) gave a matrix" % (text, header))
                    except RuntimeError:
                        c.tick()
                    except Exception as e:
                        c.fail("reading %r raised %r" % (text, e))
                    c.state(text, header)
            try:
                helper.read(os.path.join(d, "nope.csv"), False, ",")
                c.fail("reading a missing file gave a matrix")
            except Exception:
                c.tick()
        elif k == "overwrite":
            shapes = [(1, 1), (4, 3), (2, 5)]
            f = os.path.join(d, "o.csv")
            for hist in itertools.product(range(3), repeat=3):
                for i in hist:
                    a = generic(shapes[i][0], shapes[i][1], i)
                    helper.write(M(a), f, True, ",", -1)
                    back_ok(c, helper.read(f, True, ","), a, -1, False, "after writing %s" % (hist,))
                c.trace()
                c.state(hist)
        elif k == "number":
            for v in VALUES:
                for nd in PRECS:
                    t = utils.real_to_string_fixed(np.float64(v), nd)
                    c.check(value_ok(v, float(t), nd, False), "real_to_string_fixed(%r, %d) = %r" % (v, nd, t))
                    if not math.isfinite(v):
                        want = "NaN" if math.isnan(v) else "+Infinity" if v > 0 else "-Infinity"
                        c.check(t == want, "real_to_string_fixed(%r) = %r" % (v, t))
                    c.state(v, nd)
        else:
            a = np.array([[1.2345678901234567, -7.0, 9.999999999], [0.0, 3.3333333333, -1.5]]) * 10.0 ** case["e"]
            for nd in PRECS:
                for sci in (False, True):
                    roundtrip(c, a, ",", True, nd, sci, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
