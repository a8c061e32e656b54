"""C05: list utilities."""
import itertools
import math
from fractions import Fraction

import numpy as np

from wai.ma.core import utils

from ..util import generic

META = {
    "bounds": "sort: all lists over {0,1,2} up to length 8 (thorough 9), over {-1,0,1,nan} up to length 6, all permutations up to length 7 (thorough 8), 14 structured "
              "families at every length up to 80 and selected lengths up to 1500, lists made by McIlroy's adversary against the code's own comparisons up to length 3000 (thorough: 6000), each as ints, floats, numpy floats and mixed; every sub-range for quick_sort (of ints, floats, numpy floats and mixed) and partition; "
              "regression: all integer designs with up to 4 points over small grids, and generic designs of 2 to 12 points at 5 distances from zero, 4 spacings and 4 response units, exact rational oracle; max_index: all lists over {-2..1} up to length 6",
    "oracle": "sorted order of the values, exact rational least squares",
}

CASTS = {
    "int": lambda l: [int(x) if not isinstance(x, float) else x for x in l],
    "float": lambda l: [float(x) for x in l],
    "np": lambda l: [np.float64(x) for x in l],
    "np.int": lambda l: [np.int64(x) if not isinstance(x, float) else np.float64(x) for x in l],
    "mixed": lambda l: [(int, float, np.float64)[i % 3](x) if not isinstance(x, float) else x for i, x in enumerate(l)],
}

FAMILIES = {
    "up": lambda n: list(range(n)),
    "down": lambda n: list(range(n))[::-1],
    "const": lambda n: [3] * n,
    "pipe": lambda n: [min(i, n - i) for i in range(n)],
    "valley": lambda n: [max(i, n - i) for i in range(n)],
    "saw3": lambda n: [i % 3 for i in range(n)],
    "saw7": lambda n: [(i * 5) % 7 for i in range(n)],
    "alt": lambda n: [(-1) ** i * i for i in range(n)],
    "lcg": lambda n: [(i * 7919 + 13) % 104729 for i in range(n)],
    "two": lambda n: [0] * (n // 2) + [1] * (n - n // 2),
    "two-down": lambda n: [1] * (n // 2) + [0] * (n - n // 2),
    "last-small": lambda n: list(range(1, n)) + [0] if n else [],
    "first-big": lambda n: [n] + list(range(n - 1)) if n else [],
    "wide": lambda n: [(-1.0) ** i * 10.0 ** ((i * 37) % 300) for i in range(n)],
    "tiny": lambda n: [(-1.0) ** i * 10.0 ** -((i * 37) % 300) for i in range(n)],
    "near": lambda n: [1.0 + ((i * 31) % 17) * 2.0 ** -52 for i in range(n)],
    "inf": lambda n: [float("inf") if i % 5 == 0 else float("-inf") if i % 7 == 0 else float(-i) for i in range(n)],
    "nan": lambda n: [float("nan") if i % 4 == 1 else float((i * 5) % 11) for i in range(n)],
    "all-nan": lambda n: [float("nan")] * n,
}


def adversary(n):
    """A list that answers every comparison of the sort so as to leave its pivots as lopsided as possible (McIlroy's adversary)."""
    val, cand, solid = [None] * n, [0], [0]

    class Item:
        __slots__ = ("i",)

        def __init__(self, i):
            self.i = i

        def cmp(self, other):
            x, y = self.i, other.i
            if val[x] is None and val[y] is None and x != y:
                val[x if x == cand[0] else y] = solid[0]
                solid[0] += 1
            if val[x] is None:
                cand[0] = x
            elif val[y] is None:
                cand[0] = y
            a, b = (n if val[k] is None else val[k] for k in (x, y))
            return (a > b) - (a < b)

        def __lt__(self, other):
            return self.cmp(other) < 0

        def __gt__(self, other):
            return self.cmp(other) > 0
    try:
        utils.quick_sort([Item(i) for i in range(n)], list(range(n)), 0, n - 1)
    except Exception:
        pass                # what was decided so far will do
    return [float(n if v is None else v) for v in val]


def cases(tier):
    for n in (5, 9, 16, 33, 64, 150, 400, 1000, 3000) + ((6000,) if tier == "thorough" else ()):
        yield {"k": "adversary", "n": n}
    top = 9 if tier == "thorough" else 8
    for n in range(0, 4):
        yield {"k": "small", "n": n, "prefix": []}
    for n in range(4, top + 1):
        for prefix in itertools.product(range(3), repeat=3):
            yield {"k": "small", "n": n, "prefix": prefix}
    for n in range(1, 7):
        for x in range(4):
            yield {"k": "nan", "n": n, "first": x}
    for n in range(1, (8 if tier == "thorough" else 7) + 1):
        for x in range(n):
            yield {"k": "perm", "n": n, "first": x}
    for f in FAMILIES:
        yield {"k": "family", "f": f}
    for n in (2, 3, 4):
        for x in itertools.product(range(-2, 4) if n < 4 else range(0, 4), repeat=n):
            if len(set(x)) > 1:
                yield {"k": "reg", "x": x}
    yield {"k": "reglong"}
    for off in (0, 1000, -10 ** 6, 10 ** 8, -10 ** 10):
        yield {"k": "regfar", "off": off}
    for n in range(1, 7):
        for x in range(-2, 2):
            yield {"k": "max", "n": n, "first": x}
    for n in range(2, 7):
        for x in range(3):
            yield {"k": "range", "n": n, "first": x}
    yield {"k": "misc"}


def nanmax(x):
    return math.inf if isinstance(x, float) and math.isnan(x) else x


def sort_ok(c, values, casts=CASTS):
    for cast in casts:
        l = CASTS[cast](values)
        keep = list(l)
        c.tick()
        idx = utils.sort(l)
        if len(l) != len(keep) or any(a is not b for a, b in zip(l, keep)):
            c.fail("sort changed its input %r" % (keep,))
        if sorted(int(i) for i in idx) != list(range(len(values))):
            c.fail("sort(%s %r) = %r is not a permutation" % (cast, values[:20], list(idx)[:20]))
            return
        read = [nanmax(values[i]) for i in idx]
        if any(a > b for a, b in zip(read, read[1:])):
            c.fail("sort(%s %r) = %r reads %r" % (cast, values[:20], list(idx)[:20], read[:20]))
            return
    c.trace()


def run_case(case, c):
    k = case["k"]
    c.sample(case)
    if k == "small":
        n = case["n"]
        pre = list(case["prefix"])[:n]
        for rest in itertools.product(range(3), repeat=n - len(pre)):
            v = pre + list(rest)
            sort_ok(c, v, CASTS if n <= 6 else ("int", "np"))
            c.state(tuple(v))
    elif k == "nan":
        al = [-1.0, 0.0, 1.0, float("nan")]
        for rest in itertools.product(range(4), repeat=case["n"] - 1):
            v = [al[case["first"]]] + [al[i] for i in rest]
            sort_ok(c, v, ("float", "np"))
            c.state("nan", case["first"], rest)
    elif k == "perm":
        n = case["n"]
        rest = [i for i in range(n) if i != case["first"]]
        for p in itertools.permutations(rest):
            sort_ok(c, [case["first"]] + list(p), ("int", "float"))
            c.state("perm", case["first"], p)
    elif k == "family":
        for n in list(range(0, 81)) + [100, 127, 128, 129, 255, 300, 511, 640, 1000, 1024, 1500]:
            sort_ok(c, FAMILIES[case["f"]](n), ("int", "np", "mixed") if n < 300 else ("np",))
            c.state(case["f"], n)
    elif k == "reg":
        x = list(case["x"])
        n = len(x)
        for y in itertools.product(range(-1, 3), repeat=n):
            reg_ok(c, x, list(y))
            c.state(tuple(x), y)
    elif k == "reglong":
        for n in range(2, 60):
            x = [((i * 7) % 23) - 5 for i in range(n)]
            y = [((i * i * 3) % 31) - 9 for i in range(n)]
            if len(set(x)) > 1:
                reg_ok(c, x, y)
            x = [Fraction(i, 8) for i in x]
            y = [Fraction(i, 4) for i in y]
            if len(set(x)) > 1:
                reg_ok(c, x, y)
            c.state(n)
    elif k == "max":
        for rest in itertools.product(range(-2, 2), repeat=case["n"] - 1):
            v = [case["first"]] + list(rest)
            for cast in CASTS:
                l = CASTS[cast](v)
                got = utils.max_index(l)
                c.check(got == v.index(max(v)), "max_index(%s %r) = %r" % (cast, v, got))
            c.state(tuple(v))
            c.trace()
        for scale in (1e-300, 1e300, -1e300, -1e-300):
            v = [scale * i for i in range(case["n"] + 2)]
            c.check(utils.max_index(v) == v.index(max(v)), "max_index(%r)" % v)
        v = [-math.inf] * case["n"] + [0.0]
        c.check(utils.max_index(v) == case["n"], "max_index(%r)" % v)
    elif k == "regfar":
        for n in (2, 3, 5, 12):
            for step in (1, 2.0 ** -6, 0.1, 1e5):
                for yoff, yscale in ((0, 1), (1e6, 1), (-3, 1e-4), (0, 1e7)):
                    for s in range(3):
                        x = [case["off"] + step * float(v) for v in generic(1, n, s)[0]]
                        y = [yoff + yscale * float(v) for v in generic(1, n, s + 7)[0]]
                        if len(set(x)) > 1:
                            reg_ok(c, x, y)
            c.state("regfar", case["off"], n)
    elif k == "adversary":
        v = adversary(case["n"])
        sort_ok(c, v, ["float"])
        sort_ok(c, v[::-1], ["float"])
        c.trace()
        c.state("adversary", case["n"])
    elif k == "range":
        n = case["n"]
        for rest in itertools.product(range(3), repeat=n - 1):
            plain = [case["first"]] + list(rest)
            for l in range(n - 1):          # without a pivot: two halves, the first with no larger values than the second
                for r in range(l + 1, n):
                    idx = list(range(n))
                    m = utils.partition(plain, idx, l, r)
                    a, b = [plain[i] for i in idx[l:m + 1]], [plain[i] for i in idx[m + 1:r + 1]]
                    c.check(sorted(idx) == list(range(n)) and idx[:l] + idx[r + 1:] == list(range(l)) + list(range(r + 1, n)) and (not a or not b or max(a) <= min(b)),
                            "partition(%r, %d, %d) gave %r and %r" % (plain, l, r, m, idx))
            for cast, l in ((k, l) for k in CASTS for l in range(n)):
                v = CASTS[cast](plain)
                for r in range(l, n):
                    idx = list(range(n))[::-1]
                    keep = list(idx)
                    utils.quick_sort(v, idx, l, r)
                    ok = idx[:l] == keep[:l] and idx[r + 1:] == keep[r + 1:] and sorted(idx) == list(range(n)) \
                        and all(v[idx[i]] <= v[idx[i + 1]] for i in range(l, r))
                    c.check(ok, "quick_sort(%s %r, %r, %d, %d) gave %r" % (cast, v, keep, l, r, idx))
            c.state("range", case["first"], rest)
            c.trace()
    else:
        for n in range(0, 40):
            c.check(list(utils.initial_index(n)) == list(range(n)), "initial_index(%d)" % n)
        for v in itertools.product((-3, 0, 2, 0.5), repeat=3):
            got = utils.sum_of_squares(list(v))
            c.check(got == sum(x * x for x in v), "sum_of_squares(%r) = %r" % (v, got))
            for f in (utils.to_real_array, utils.to_real_list):
                src = list(v)
                out = f(src)
                c.check(out == [float(x) for x in v] and all(isinstance(x, float) for x in out) and out is not src and src == list(v), "to_real_array(%r)" % (v,))
            c.state(v)
            c.trace()
        c.check(utils.sum_of_squares([]) == 0, "sum_of_squares([])")
        for d in range(1, 6):
            l = 1
            for _ in range(d):
                l = [l, l]
            c.check(utils.get_list_dimensions(l) == d, "get_list_dimensions depth %d" % d)
        for x in [i / 4.0 for i in range(-40, 60)]:
            c.check(abs(utils.exp(x) - math.exp(x)) <= 1e-12 * math.exp(x), "exp(%r)" % x)
            if x >= 0:
                c.check(abs(utils.sqrt(x) - math.sqrt(x)) <= 1e-12 * math.sqrt(x), "sqrt(%r)" % x)


def reg_ok(c, x, y):
    n = len(x)
    fx, fy = [Fraction(v) for v in x], [Fraction(v) for v in y]
    mx, my = sum(fx) / n, sum(fy) / n
    b = sum((p - mx) * (q - my) for p, q in zip(fx, fy)) / sum((p - mx) ** 2 for p in fx)
    a = my - b * mx
    for cast in (float, np.float64, int):
        if cast is int and any(v.denominator > 1 for v in fx + fy):
            continue
        lx, ly = [cast(v) for v in x], [cast(v) for v in y]
        ga, gb = utils.linear_regression(lx, ly)
        size = max(abs(v) for v in fx) / max(abs(p - mx) for p in fx)      # cancellation that the data themselves cause
        spread = max(max(abs(q - my) for q in fy), Fraction(2) ** -50 * max(abs(q) for q in fy))
        tol = Fraction(10) ** -12 * (1 + size) * spread + Fraction(2) ** -45 * max(max(abs(q) for q in fy), Fraction(1, 2 ** 1000))
        ok = math.isfinite(ga) and math.isfinite(gb) and abs(Fraction(float(gb)) - b) * max(abs(p - mx) for p in fx) <= tol \
            and abs(Fraction(float(ga)) - a) <= tol * (1 + size) + Fraction(2) ** -45 * abs(a)
        c.check(ok, "linear_regression(%r, %r) = %r, expected %r" % (x, y, (ga, gb), (float(a), float(b))))
        c.check(lx == [cast(v) for v in x] and ly == [cast(v) for v in y], "linear_regression changed its input")
    c.trace()
