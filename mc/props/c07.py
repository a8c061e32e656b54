"""C07: binary serialisation."""
import io
import itertools
import math
import os
import shutil
import struct
import tempfile

import numpy as np

from wai.ma.core import Serialisable
from wai.ma.core.matrix import Matrix
from wai.ma.algorithm.pls import SIMPLS
from wai.ma.transformation import Log, SavitzkyGolay, SavitzkyGolay2, Standardize

from ..util import M, A, generic, show

META = {
    "bounds": "4-byte ints: all of -300..300 and 2^k+{-1,0,1} of both signs up to and beyond the range; big ints: all of -70000..70000 (thorough +-1.1 million) and "
              "+-2^k+{-1,0,1} for k<=512; doubles: 40 special values and every power of two; strings: all up to length 3 over 6 characters of 1-4 encoded bytes; "
              "matrices: all shapes up to 6x6 and 200x3, special values in every cell; all Log/Standardize/SavitzkyGolay/SIMPLS states of a parameter grid; "
              "save_state to 5 kinds of paths in all orders of two",
    "oracle": "an independent decoder written from the documented layout",
}


class Reader:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise ValueError("truncated")
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def int(self):
        v = 0
        raw = self.take(4)
        for k in range(4):
            v |= raw[k] << (8 * k)
        return v - (1 << 32) if v >> 31 else v

    def real(self):
        return struct.unpack("<d", self.take(8))[0]

    def str(self):
        return self.take(self.int()).decode("utf-8")

    def big(self):
        n = self.int()
        raw = self.take(n)
        v = sum(raw[k] << (8 * k) for k in range(n))
        return v - (1 << (8 * n)) if n and raw[-1] >> 7 else v

    def matrix(self):
        r, p = self.int(), self.int()
        return np.array([[self.real() for _ in range(p)] for _ in range(r)]).reshape(r, p)

    def done(self):
        return self.i == len(self.b)


REALS = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, math.pi, 1e300, -1e300, 1e-300, 5e-324, -5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 255.0, 256.0, 65536.5, 2.0 ** 31, 2.0 ** 53, 1e16 + 2]


def bits(x):
    return struct.pack("<d", x)


def same_real(a, b):
    return bits(a) == bits(b) or (math.isnan(a) and math.isnan(b))


def same_mat(a, b):
    return a.shape == b.shape and all(same_real(float(x), float(y)) for x, y in zip(a.ravel(), b.ravel()))


def cases(tier):
    yield {"k": "int"}
    yield {"k": "real"}
    yield {"k": "str"}
    yield {"k": "bad"}
    yield {"k": "bigpow"}
    top = 1100000 if tier == "thorough" else 70000
    step = 10000
    for lo in range(-top, top, step):
        yield {"k": "big", "lo": lo, "hi": lo + step + 1}
    for r in range(1, 7):
        yield {"k": "mat", "r": r}
    yield {"k": "matbig"}
    yield {"k": "log"}
    yield {"k": "std"}
    for po in range(2, 6):
        yield {"k": "sg", "po": po}
    yield {"k": "simpls"}
    yield {"k": "save"}
    yield {"k": "sequence"}


def state_bytes(obj):
    s = io.BytesIO()
    obj.serialise_state(s)
    return s.getvalue()


def check_state(c, obj, decode, what):
    """decode(Reader) -> bool; serialised twice, into a fresh stream and behind other bytes, and through the other entry points."""
    b = state_bytes(obj)
    c.check(state_bytes(obj) == b, what + ": serialising twice gives different bytes")
    rd = Reader(b)
    try:
        ok = decode(rd) and rd.done()
    except Exception as e:
        c.fail("%s: not decodable: %r, bytes %s" % (what, e, b[:64].hex()))
        return b
    c.check(ok, "%s: decodes to something else: %s" % (what, b[:64].hex()))
    s = io.BytesIO()
    s.write(b"xyz")
    obj.serialise_state(s)
    c.check(s.getvalue() == b"xyz" + b, what + ": appending to a stream")
    g = obj.get_serialised_state()
    if g == b"" and b != b"":
        c.known("empty-serialised-state", what)
    else:
        c.check(g == b, "%s: get_serialised_state gives %s" % (what, g[:32].hex()))
    c.trace()
    c.state(what, b)
    return b


def run_case(case, c):
    k = case["k"]
    c.sample(case)
    ser = Serialisable.serialise_to_bytes
    if k == "int":
        vals = set(range(-300, 301))
        for e in range(0, 31):
            for d in (-1, 0, 1):
                for sg in (1, -1):
                    vals.add(sg * (1 << e) + d)
        vals |= {2 ** 31 - 1, -2 ** 31}
        vals |= {b << s for b in range(256) for s in (0, 8, 16) } | {-(b << s) for b in range(256) for s in (0, 8, 16)}
        for v in sorted(x for x in vals if -2 ** 31 <= x < 2 ** 31):
            b = ser(v)
            c.check(isinstance(b, bytes) and len(b) == 4 and Reader(b).int() == v, "int %d -> %s" % (v, b.hex()))
            c.state(v)
        for v in (2 ** 31, -2 ** 31 - 1, 2 ** 40):
            try:
                b = ser(v)
                c.fail("int %d was serialised as %s" % (v, b.hex()))
            except Exception:
                c.tick()
    elif k == "real":
        vals = REALS + [math.ldexp(1.0, e) for e in range(-1074, 1024)] + [-math.ldexp(1.5, e) for e in range(-1022, 1023, 3)]
        for v in vals:
            for t in (float, np.float64):
                b = ser(t(v))
                c.check(len(b) == 8 and same_real(Reader(b).real(), v), "real %r -> %s" % (v, b.hex()))
            c.state("%r" % v)
    elif k == "str":
        al = ["a", "Z", "\n", "\u00e9", "\u20ac", "\U0001f600", " ", "\0"]
        for n in range(0, 4):
            for t in itertools.product(al, repeat=n):
                s = "".join(t)
                b = ser(s)
                rd = Reader(b)
                c.check(rd.str() == s and rd.done(), "str %r -> %s" % (s, b.hex()))
                c.state(s)
        for n in (127, 128, 255, 256, 257, 65535, 65536, 70000):
            for ch in ("x", "\u00e9"):
                rd = Reader(ser(ch * n))
                c.check(rd.str() == ch * n and rd.done(), "str of length %d" % n)
                c.state(n, ch)
    elif k == "bad":
        for v in (None, [1], (1,), {}, 1j, b"x", object()):
            try:
                ser(v)
                c.fail("%r was serialised" % (v,))
            except Exception:
                c.tick()
            c.state(repr(type(v)))
    elif k in ("big", "bigpow"):
        if k == "big":
            vals = range(case["lo"], case["hi"])
        else:
            vals = [sg * (1 << e) + d for e in range(0, 513) for sg in (1, -1) for d in (-1, 0, 1)]
        for v in vals:
            b = Serialisable.serialise_big_int(v)
            rd = Reader(b)
            try:
                ok = rd.big() == v and rd.done()
            except ValueError:
                ok = False
            c.check(ok, "big int %d -> %s" % (v, b.hex()))
        c.state(k, len(vals), vals[0])
        c.trace(len(vals))
    elif k == "mat":
        r = case["r"]
        for p in range(1, 7):
            for a in (generic(r, p, 3), generic(r, p, 3, 1e-200), np.arange(r * p, dtype=float).reshape(r, p)):
                check_state(c, M(a), lambda rd: same_mat(rd.matrix(), a), "matrix %s" % show(a))
                f = Matrix(np.asfortranarray(a))
                check_state(c, f, lambda rd: same_mat(rd.matrix(), a), "column-major matrix %s" % show(a))
            for i in range(r):
                for j in range(p):
                    a = generic(r, p, 5)
                    a[i, j] = REALS[(i * p + j) % len(REALS)]
                    check_state(c, M(a), lambda rd: same_mat(rd.matrix(), a), "matrix %s" % show(a))
        for v in REALS:
            a = np.full((r, 2), v)
            check_state(c, M(a), lambda rd: same_mat(rd.matrix(), a), "matrix of %r" % v)
    elif k == "matbig":
        for s in ((200, 3), (3, 200), (300, 1), (1, 300), (17, 129)):
            a = generic(s[0], s[1], 2)
            check_state(c, M(a), lambda rd: same_mat(rd.matrix(), a), "matrix %s" % (s,))
        m = M(generic(3, 3, 1))
        for step in range(6):
            m.set(step % 3, (2 * step) % 3, step * 1.5)
            a = A(m)
            check_state(c, m, lambda rd: same_mat(rd.matrix(), a), "matrix after update %d" % step)
            m.svd_U()
            m.get_eigenvalues()
            check_state(c, m, lambda rd: same_mat(rd.matrix(), a), "matrix after update and decomposition %d" % step)
    elif k == "log":
        for base in (math.e, 2, 2.0, 10, 10.0, 0.5, 7.25, 1e-3, 1e6):
            for off in (1.0, 0, 0.0, -3, 2, 1e-9, 12345.678):
                for used in (False, True):
                    t = Log()
                    t.base = base
                    t.offset = off
                    if used:
                        t.transform(M(np.full((2, 2), 50.0)))

                    def dec(rd):
                        b, f, o = rd.real(), rd.real(), rd.real()
                        return b == float(base) and abs(f - 1 / math.log(base)) <= 1e-12 * abs(f) and o == float(off)
                    check_state(c, t, dec, "Log base=%r offset=%r used=%s" % (base, off, used))
    elif k == "std":
        t = Standardize()
        unready(c, t, "unconfigured Standardize")
        for r, p in itertools.product((2, 3, 7), (1, 2, 5)):
            for seed in range(3):
                a = generic(r, p, seed)
                if seed == 1:
                    a[:, p - 1] = 4.0
                for reuse in (False, True):
                    t = t if reuse else Standardize()
                    t.configure(M(a))
                    mean = a.mean(axis=0)
                    sd = a.std(axis=0, ddof=1)
                    sd = np.where(sd < 1e-12, 1, sd)

                    def dec(rd):
                        m, s = rd.matrix(), rd.matrix()
                        return m.shape == s.shape == (1, p) and np.allclose(m[0], mean, 1e-10, 1e-12) and np.allclose(s[0], sd, 1e-10, 1e-12)
                    b = check_state(c, t, dec, "Standardize %s" % show(a))
                    t.transform(M(a + 100))
                    c.check(state_bytes(t) == b, "Standardize: state changed by transforming")
        t.reset()
        unready(c, t, "reset Standardize")
    elif k == "sg":
        po = case["po"]
        for do in range(0, po + 1):
            for l in range(0, 4):
                for rr in range(0, 4):
                    if l + rr < po:
                        continue
                    for cls in (SavitzkyGolay, SavitzkyGolay2):
                        if cls is SavitzkyGolay2 and l != rr:
                            continue
                        t = cls()
                        unready(c, t, "unconfigured SavitzkyGolay")
                        t.polynomial_order = po
                        t.derivative_order = do
                        if cls is SavitzkyGolay:
                            t.num_points_left, t.num_points_right = l, rr
                        else:
                            t.num_points = l
                        t.configure(M(generic(2, 12)))
                        z = np.arange(-l, rr + 1.0)
                        want = np.linalg.pinv(np.vander(z, po + 1, increasing=True))[do]
                        check_state(c, t, lambda rd: np.allclose(rd.matrix(), want.reshape(1, -1), 1e-7, 1e-9), "%s %d %d %d %d" % (cls.__name__, po, do, l, rr))
                        t.polynomial_order = po
                        unready(c, t, "SavitzkyGolay after a parameter change")
    elif k == "simpls":
        for nc in (1, 2, 3):
            t = SIMPLS()
            unready(c, t, "untrained SIMPLS")
            t.num_components = nc
            X, Y = generic(8, 4, 1), generic(8, 1, 9)
            c.check(t.initialize(M(X), M(Y)) is None, "SIMPLS training failed")
            W = A(t.get_matrix("W"))
            check_state(c, t, lambda rd: same_mat(rd.matrix(), W), "SIMPLS %d" % nc)
            c.check(W.shape == (4, nc), "SIMPLS W shape %s" % (W.shape,))
            t.reset()
            unready(c, t, "reset SIMPLS")
    elif k == "sequence":
        objs = [M(generic(2, 2)), M(generic(1, 4)), Log()]
        l2 = Log()
        l2.base = 2
        objs.append(l2)
        t = Standardize()
        t.configure(M(generic(4, 2)))
        objs.append(t)
        alone = [state_bytes(o) for o in objs]
        for hist in itertools.product(range(len(objs)), repeat=3):
            s = io.BytesIO()
            for i in hist:
                objs[i].serialise_state(s)
            c.check(s.getvalue() == b"".join(alone[i] for i in hist), "sequence %s" % (hist,))
            c.trace()
            c.state(hist)
    elif k == "save":
        d = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
        cwd = os.getcwd()
        try:
            os.chdir(d)
            names = ["plain.bin", os.path.join(d, "abs.bin"), "sub/x.bin", os.path.join(d, "deep", "er", "y.bin"), "./dot.bin", "sub/../z.bin", "noext", "sp ace/\u00e9.bin"]
            objs = [M(generic(3, 2)), M(generic(1, 1)), Log()]
            for n in names:
                for hist in itertools.product(range(len(objs)), repeat=2):
                    for i in hist:
                        objs[i].save_state(n)
                        with open(n, "rb") as fp:
                            c.check(fp.read() == state_bytes(objs[i]), "save_state(%r) history %s" % (n, hist))
                    c.trace()
                    c.state(n, hist)
            c.check(os.getcwd() == os.path.realpath(d), "save_state changed the working directory")
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)


def unready(c, t, what):
    s = io.BytesIO()
    try:
        t.serialise_state(s)
        c.fail(what + " was serialised")
    except Exception:
        c.tick()
