"""C20: the configuration life cycle of the transformations, over all histories up to a depth."""
import itertools

import numpy as np

from wai.ma.core.matrix import factory
from wai.ma.transformation import (Center, Standardize, RowNorm, Log, RobustScaler, PowerTransformer, QuantileTransformer, MultiplicativeScatterCorrection,
                                   PassThrough, SavitzkyGolay, SavitzkyGolay2, FFT)
from wai.ma.transformation._YGradientGLSWSavitzkyGolayFilter import YGradientGLSWSavitzkyGolayFilter

from ..util import M, A, generic, same, show

META = {
    "bounds": "every transformation; all histories up to depth 4 over the full alphabet (thorough: also depth 5 over a reduced one; power transforms depth 3, thorough 4, reduced), ending in an observation, over: configure with, transform and inverse transform data sets A, B (same width), S (a single row, never configured explicitly), C (another width) and D (unusable), "
              "reset, every accepted parameter value of a list and every illegal one",
    "oracle": "a two-field abstract state (parameter values, data set the statistics come from); each observation must equal that of a fresh object with the same parameters configured with that data set",
    "assumptions": ["a parameter is only assigned values different from its current one"],
}


def msc_data(seed, n=3, w=8):
    return np.column_stack([np.arange(w) * 1.0] + [np.abs(generic(1, w, seed + i)[0]) + i for i in range(n)])


BAD = float("inf")


def withinf(a):
    a = a.copy()
    a[1, 0] = BAD
    return a


GEN = {"A": generic(5, 3, 1), "B": generic(4, 3, 2) * 3 + 7, "C": generic(5, 2, 3), "D": withinf(generic(5, 3, 1))}
POS = {k: np.abs(v) + 1 for k, v in GEN.items()}
WIDE = {"A": generic(2, 12, 1), "B": generic(3, 12, 2) + 1, "C": generic(2, 9, 3), "D": generic(2, 2, 4)}
SPEC = {"A": msc_data(1), "B": msc_data(5, 2), "C": msc_data(9, 3, 6), "D": np.arange(4.0).reshape(4, 1)}

NARROW = {k: v[:, :1] if k != "C" else v for k, v in GEN.items()}
NARROWPOS = {k: v[:, :1] if k != "C" else v for k, v in POS.items()}

for _d in (GEN, POS, WIDE, NARROW, NARROWPOS):
    _d["S"] = _d["B"][1:2]
SPEC["S"] = SPEC["B"][:, [0, 2]]

# name -> (class, data, accepted parameter values, rejected parameter values, observations)
KINDS = {
    "Center": (Center, GEN, [], []),
    "Standardize": (Standardize, GEN, [], []),
    "RowNorm": (RowNorm, GEN, [], []),
    "PassThrough": (PassThrough, GEN, [], []),
    "YGrad": (YGradientGLSWSavitzkyGolayFilter, GEN, [], []),
    "Log": (Log, POS, [("base", 2), ("base", 10.0), ("offset", 3.5)], [("base", 1), ("base", -2.0)]),
    "RobustScaler": (RobustScaler, GEN, [("with_centering", False), ("with_scaling", False), ("quantile_range", (10.0, 80.0))], [("quantile_range", (60.0, 40.0))]),
    "PowerTransformer": (PowerTransformer, NARROW, [("standardise", False), ("method", "box-cox")], [("method", "cubic")]),
    "PowerTransformerPos": (PowerTransformer, NARROWPOS, [("standardise", False), ("method", "box-cox")], []),
    "QuantileTransformer": (QuantileTransformer, GEN, [("n_quantiles", 3), ("output_distribution", "normal"), ("random_state", 3)], [("output_distribution", "gamma")]),
    "SavitzkyGolay": (SavitzkyGolay, WIDE, [("derivative_order", 0), ("derivative_order", 3), ("num_points_left", 1), ("num_points_right", 4), ("polynomial_order", 3)], [("polynomial_order", 1), ("num_points_left", -1)]),
    "SavitzkyGolay2": (SavitzkyGolay2, WIDE, [("derivative_order", 0), ("num_points", 4), ("polynomial_order", 3)], [("num_points", -1), ("derivative_order", -1)]),
    "FFT": (FFT, WIDE, [("output_mode", 3), ("output_mode", 12), ("orthonormalisation", True)], [("output_mode", 5)]),
    "MSC": (MultiplicativeScatterCorrection, SPEC, [("ranges", ((0.0, 3.0),)), ("ranges", ((0.0, 7.0), (2.0, 5.0)))], []),
}


def put(t, k, v):
    if k == "ranges":
        t.correction.ranges = list(v)
    else:
        setattr(t, k, v)


def read(t, k):
    if k == "ranges":
        return tuple(t.correction.ranges)
    v = getattr(t, k)
    return getattr(v, "value", v)


# parameters whose change takes effect without new statistics: they are no part of what the statistics depend on
NO_RESET = {("Log", "offset"), ("FFT", "output_mode"), ("FFT", "orthonormalisation"), ("MSC", "ranges")}


EXPENSIVE = ("PowerTransformer", "PowerTransformerPos")


def ops(kind, reduced=False):
    cls, data, good, bad = KINDS[kind]
    if reduced:
        o = [("cfg", "A"), ("cfg", "B"), ("cfg", "D"), ("tr", "A"), ("tr", "B"), ("inv", "B"), ("inv", "S"), ("reset",)]
        return o + [("set", i) for i in range(min(2, len(good)))] + [("bad", i) for i in range(min(1, len(bad)))]
    o = [("cfg", n) for n in "ABCD"] + [("tr", n) for n in "ABCS"] + [("inv", n) for n in "ABS"] + [("reset",)]
    return o + [("set", i) for i in range(len(good))] + [("bad", i) for i in range(len(bad))]


def cases(tier):
    for kind in KINDS:
        if kind in EXPENSIVE:
            runs = [(True, 4), (False, 3)] if tier == "thorough" else [(True, 3)]
        else:
            runs = [(False, 4), (True, 5)] if tier == "thorough" else [(False, 4)]
        for reduced, depth in runs:
            for first in ops(kind, reduced):
                for second in ops(kind, reduced):
                    yield {"kind": kind, "first": first, "second": second, "depth": depth, "reduced": reduced}


_CACHE = {}


def oracle(kind, params, conf, op, name):
    """Outcome of a fresh object."""
    key = (kind, params, conf, op, name)
    if key not in _CACHE:
        cls, data, _, _ = KINDS[kind]
        try:
            t = cls()
            for k, v in params:
                put(t, k, v)
            if conf is not None:
                t.configure(M(data[conf]))
            if op == "cfg":
                t.configure(M(data[name]))
                res = None
            else:
                m = M(data[name])
                res = np.array((t.transform if op == "tr" else t.inverse_transform)(m).data)
            _CACHE[key] = ("ok", res)
        except Exception as e:
            _CACHE[key] = ("err", None)
    return _CACHE[key]


def run_case(case, c):
    kind = case["kind"]
    cls, data, good, bad = KINDS[kind]
    alphabet = ops(kind, case["reduced"])
    c.sample(case)
    obs = [o for o in alphabet if o[0] in ("tr", "inv")]
    first, second = tuple(case["first"]), tuple(case["second"])
    mats = {k: M(v) for k, v in data.items()}
    for n in range(0, case["depth"] - 2 + 1):
        for mid in itertools.product(alphabet, repeat=max(0, n - 1)):
            for last in (obs if n else [None]):
                h = (first, second) + mid + ((last,) if last else ())
                if not last and h[-1][0] not in ("tr", "inv"):
                    continue
                replay(c, kind, cls, good, bad, mats, h)


def replay(c, kind, cls, good, bad, mats, h):
    t = cls()
    params = {}
    conf = None
    for step, op in enumerate(h):
        c.tick()
        if op[0] == "reset":
            t.reset()
            conf = None
        elif op[0] == "set":
            k, v = good[op[1]]
            if read(t, k) == v:
                continue
            put(t, k, v)
            params[k] = v
            if (kind, k) not in NO_RESET:
                conf = None
        elif op[0] == "bad":
            k, v = bad[op[1]]
            before = read(t, k)
            try:
                put(t, k, v)
                return c.fail("%s.%s = %r was accepted" % (kind, k, v))
            except Exception:
                if read(t, k) != before:
                    return c.fail("%s.%s = %r was rejected but stored" % (kind, k, v))
        else:
            what, name = op
            pk = tuple(sorted(params.items()))
            if what == "cfg":
                exp = oracle(kind, pk, None, "cfg", name)
            elif kind == "RowNorm":
                exp = oracle(kind, pk, None, what, name)
            else:
                exp = oracle(kind, pk, conf, what, name)
            try:
                if what == "cfg":
                    got = ("ok", t.configure(mats[name]))
                else:
                    got = ("ok", np.array((t.transform if what == "tr" else t.inverse_transform)(mats[name]).data))
            except Exception as e:
                got = ("err", repr(e))
            if got[0] != exp[0]:
                return c.fail("%s history %s: step %d %s, expected %s" % (kind, h, step, got[1] if got[0] == "err" else "succeeded", exp[0]))
            # RowNorm has no inverse; what it returns there is not claimed
            if exp[0] == "ok" and what != "cfg" and not (kind == "RowNorm" and what == "inv"):
                if not (same(got[1], exp[1]) or np.allclose(got[1], exp[1], 1e-10, 1e-10, equal_nan=True)):
                    return c.fail("%s history %s: step %d gives %s; a fresh object configured with %s gives %s" % (kind, h, step, show(got[1]), conf or name, show(exp[1])))
            if what == "cfg":
                if exp[0] == "ok":
                    conf = name
            elif conf is None and oracle(kind, pk, None, "cfg", name)[0] == "ok":
                conf = name
        if step == len(h) - 1:
            c.state(kind, tuple(sorted(params.items())), conf)
    c.trace()
