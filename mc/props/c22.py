"""C22: column filters."""
import itertools

import numpy as np

from wai.ma.core import MultiFilter
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation import Center, Standardize, SavitzkyGolay, Log, PassThrough

from ..util import M, A, generic, show, same

META = {
    "bounds": "Downsample: widths 1..16 x starts 0..width-1 x steps 1..width+2 x 1..3 rows; Equidistance: widths 1..24 x samples 2..30 x 3 rows, both also at widths 64 to 1030 with 40 rows, settings changed between uses; "
              "MultiFilter: all chains of length 0..3 (thorough: 4) over 8 filters, fresh and reused, with one object in several places, plus nested chains and edited chains",
    "oracle": "column selection, exact linear interpolation in rational arithmetic of the positions, and composition of independently created members",
    "assumptions": [],
}


def cases(tier):
    top = 25 if tier == "thorough" else 17
    for w in range(1, top):
        yield {"k": "down", "w": w}
    for w in range(1, 41 if tier == "thorough" else 25):
        yield {"k": "equi", "w": w, "top": 60 if tier == "thorough" else 31}
    for w in (64, 100, 257, 1030):
        yield {"k": "large", "w": w}
    yield {"k": "invalid"}
    for n in range(0, 5 if tier == "thorough" else 4):
        for first in (range(len(POOL)) if n else [None]):
            yield {"k": "chain", "n": n, "first": first}


def down(start, step):
    f = Downsample()
    f.start_index, f.step = start, step
    return f


def sg():
    t = SavitzkyGolay()
    t.num_points_left = t.num_points_right = 1
    return t


POOL = [lambda: down(0, 2), lambda: down(1, 1), lambda: Equidistance(9), lambda: Equidistance(4), Center, Standardize, sg, PassThrough]


def run_case(case, c):
    c.sample(case)
    globals()["do_" + case["k"]](case, c)


def do_down(case, c):
    w = case["w"]
    for rows in (1, 2, 3):
        x = generic(rows, w, w)
        f = Downsample()
        c.check(same(A(f.transform(M(x))), x), "default Downsample changed the data")
        for start in range(w):
            for step in range(1, w + 3):
                want = x[:, start::step]
                got = A(down(start, step).transform(M(x)))
                c.check(same(got, want), lambda: "Downsample(start=%d, step=%d) of width %d: %s expected %s" % (start, step, w, show(got), show(want)))
                f.start_index, f.step = start, step
                c.check(same(A(f.transform(M(x))), want), "a reused Downsample(start=%d, step=%d) differs on width %d" % (start, step, w))
                c.trace()
                c.state(rows, w, start, step)


def do_large(case, c):
    w = case["w"]
    for rows in (1, 40):
        x = generic(rows, w, 5)
        for start in (0, 1, 7, w // 2, w - 1):
            for step in (1, 2, 3, 10, w - 1, w, 2 * w):
                got = A(down(start, step).transform(M(x)))
                c.check(same(got, x[:, start::step]), lambda: "Downsample(start=%d, step=%d) of %d rows of width %d: %s" % (start, step, rows, w, show(got)))
                c.trace()
        sc = np.abs(x).max(axis=1, keepdims=True)
        for n in (2, 3, 10, w // 2, w - 1, w, w + 1, 2 * w - 1, 1000):
            got, want = A(Equidistance(n).transform(M(x))), interp(x, n)
            c.check(got.shape == want.shape and bool((np.abs(got - want) <= 1e-11 * sc).all()), lambda: "Equidistance(%d) of %d rows of width %d: %s expected %s" % (n, rows, w, show(got), show(want)))
            c.trace()
            c.state("large", rows, w, n)


def interp(x, n):
    p = x.shape[1]
    cols = []
    for i in range(n):
        num, den = (p - 1) * i, n - 1
        k, rem = divmod(num, den)
        cols.append(x[:, k] if rem == 0 else x[:, k] + (x[:, k + 1] - x[:, k]) * (rem / den))
    return np.stack(cols, axis=1)


def do_equi(case, c):
    w = case["w"]
    f = Equidistance(5)
    for rows in (1, 3):
        x = np.vstack([generic(rows, w, w), 1e6 * generic(1, w, 3)])
        sc = np.abs(x).max(axis=1, keepdims=True)
        for n in range(2, case["top"]):
            want = interp(x, n)
            for name, g in (("fresh", Equidistance(n)), ("reused", f)):
                g.num_samples = n
                got = A(g.transform(M(x)))
                c.check(got.shape == want.shape and bool((np.abs(got - want) <= 1e-12 * sc).all()), lambda: "%s Equidistance(%d) of width %d: %s expected %s" % (name, n, w, show(got), show(want)))
                if got.shape == want.shape:
                    c.check(same(got[:, 0], x[:, 0]) and same(got[:, -1], x[:, -1]), "Equidistance(%d) of width %d moved the end points" % (n, w))
            c.trace()
            c.state(rows, w, n)


def do_invalid(case, c):
    for bad in (1, 0, -1, -7):
        try:
            Equidistance(bad)
            c.fail("Equidistance(%d) accepted" % bad)
        except Exception:
            c.tick()
        f = Equidistance(6)
        try:
            f.num_samples = bad
            c.fail("num_samples = %d accepted" % bad)
        except Exception:
            x = generic(2, 9, 1)
            c.check(f.num_samples == 6 and A(f.transform(M(x))).shape == (2, 6), "rejected num_samples=%d had an effect" % bad)
        c.trace()
        c.state(bad)


def chain_ref(idx, x):
    for i in idx:
        x = A(POOL[i]().transform(M(x)))
    return x


def do_chain(case, c):
    n = case["n"]
    x = generic(4, 17, 5)
    y = generic(3, 17, 6)
    rest = itertools.product(range(len(POOL)), repeat=max(0, n - 1))
    for tail in rest:
        idx = ((case["first"],) + tail) if n else ()
        ref = [POOL[i]() for i in idx]
        try:
            wx = x
            for f in ref:
                wx = A(f.transform(M(wx)))
            wy = y
            for f in ref:
                wy = A(f.transform(M(wy)))
        except Exception:
            # a member can't be applied to what its predecessor returns: nor can the chain
            try:
                MultiFilter([POOL[i]() for i in idx]).transform(M(x))
                c.fail("the chain %s can be applied although its members can't" % (idx,))
            except Exception:
                c.tick()
            continue
        mf = MultiFilter([POOL[i]() for i in idx])
        gx = A(mf.transform(M(x)))
        c.check(same(gx, wx), lambda: "chain %s: %s expected %s" % (idx, show(gx), show(wx)))
        gy = A(mf.transform(M(y)))
        c.check(same(gy, wy), lambda: "chain %s on a second data set: %s expected %s" % (idx, show(gy), show(wy)))
        shared, solo = [f() for f in POOL], [f() for f in POOL]
        try:
            ws = x
            for i in idx:
                ws = A(solo[i].transform(M(ws)))
        except Exception:
            ws = None           # the same member can't be applied to both intermediate results
        for form in (lambda m: MultiFilter(m), lambda m: MultiFilter([MultiFilter(m[:1])] + m[1:]), lambda m: MultiFilter(m[:1] + [MultiFilter(m[1:])])) if len(set(idx)) < n else ():
            try:
                gs = A(form([shared[i] for i in idx]).transform(M(x)))
            except Exception:
                gs = None
            c.check((gs is None) == (ws is None) and (ws is None or same(gs, ws)), lambda: "chain %s with the same object in several places: %s expected %s" % (idx, gs, ws))
            shared = [f() for f in POOL]
        for cut in range(n + 1):
            nested = MultiFilter([MultiFilter([POOL[i]() for i in idx[:cut]]), MultiFilter([POOL[i]() for i in idx[cut:]])])
            c.check(same(A(nested.transform(M(x))), wx), lambda: "chain %s nested at %d differs" % (idx, cut))
            members = [POOL[i]() for i in idx]
            edited = MultiFilter([])
            edited.filters = members[:cut]
            edited.transform(M(x))
            edited.filters = [POOL[i]() for i in idx]
            c.check(same(A(edited.transform(M(x))), wx), lambda: "chain %s replaced after use differs" % (idx,))
        c.trace()
        c.state(idx)
