"""C25: two threads under a controlled scheduler."""
import random
import sys
import warnings

import numpy as np

from wai.ma.core import utils
from wai.ma.core.matrix import factory, helper

from .. import ops, sched
from ..algos import SPECS
from ..util import M, generic
from . import c03

META = {
    "chunk": 1, "timeout": 200,
    "bounds": "two real threads under a controlled scheduler, one preempted at a source-line boundary (or return) of the library. Own objects: complete lives (set up, train, apply, publish, reset) of every algorithm against a life of the same class and of its neighbours on other data (thorough: of seven), every transformation, kernel, matrix operation (~150), sort, text and binary IO; shared trained algorithms, configured transformations, kernels, chains and matrices: every pair of reading methods. "
              "Points: every line of short operations, the first, second and last pass of every line of long ones; every bytecode instruction for the methods of a shared matrix; two preemptions (A up to i, B up to j, A to its end, B to its end) at all pairs of lines of the shared matrix methods and of short operations",
    "oracle": "the results of the same operations executed alone; process-wide settings before and after",
    "assumptions": ["calls into numpy, scipy and scikit-learn are atomic", "objects whose transform retrains them (PCA, FastICA, RowNorm) are not shared"],
}


def matrix_methods(s):
    """Reading methods of a shared matrix."""
    r, p = s
    out = {}
    for n in ("svd_U", "svd_V", "svd_S", "get_singular_values", "transpose", "copy", "abs", "normalized", "norm2", "pseudo_inverse", "sum", "median"):
        out[n] = lambda m, n=n: getattr(m, n)()
    if r == p:
        for n in ("get_eigenvectors", "get_eigenvectors_sorted_ascending", "get_eigenvectors_sorted_descending", "get_dominant_eigenvector", "get_eigenvalue_decomposition_V", "get_eigenvalue_decomposition_D", "get_eigenvalues", "get_eigenvalues_sorted_descending", "get_eigenvalues_sorted_ascending", "inverse"):
            out[n] = lambda m, n=n: getattr(m, n)()
        out["get_eigenvectors(True)"] = lambda m: m.get_eigenvectors(True)
    return out


DESIGNS = {"symmetric": generic(3, 3, 5) + generic(3, 3, 5).T + np.diag([1.0, 30, 60]), "general": np.array([[2.0, 1, 0], [0.5, 5, 1], [0, 0.25, 9]]), "tall": generic(4, 2, 6), "wide": generic(2, 3, 7)}


def own_ops():
    """Short operations on their own objects."""
    out = {}
    for n, f in c03.producers((3, 3)) + c03.queries((3, 3)):
        if n != "str":
            out["matrix " + n] = f
    for n, f in c03.mutators((3, 3)):
        out["in-place " + n] = lambda a, b, f=f: (f(a), a)[1]
    out["sort"] = lambda a, b: list(utils.sort([float(v) for v in np.vstack([a.data, b.data]).ravel()]))
    out["regression"] = lambda a, b: utils.linear_regression(list(a.data[0]), list(b.data[0]))
    out["rand"] = lambda a, b: factory.rand(3, 2, int(abs(a.data[0, 0])))
    out["randn"] = lambda a, b: factory.randn(3, 2, int(abs(a.data[0, 0])))
    out["text"] = text
    out["solve"] = lambda a, b: helper.solve(a, b)
    for k in (ops.LinearKernel, ops.PolyKernel, ops.RBFKernel):
        out[k.__name__] = lambda a, b, k=k: k().apply_matrix(a, b)
    return out


def text(a, b):
    import io
    s = io.StringIO()
    helper.write(a, s, True, ",", 5, True)
    s.seek(0)
    return helper.read(s, True, ","), helper.to_string(b)


def shared_transformations():
    """name -> (object, {method: function of (object, data)})."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return make_shared_transformations()


def make_shared_transformations():
    pos = np.abs(generic(7, 11, 3)) + 1
    out = {}
    for n, make in ops.TRANSFORMATIONS.items():
        t = make()
        if n in ("YGradient", "RowNorm"):
            continue
        if hasattr(t, "configure"):
            t.configure(M(pos))
        else:
            t.transform(M(pos))
        ms = {"transform": lambda t, d: t.transform(M(d))}
        if hasattr(t, "inverse_transform") and ops.observed(lambda: t.inverse_transform(M(pos / 40)))[0] == "ok":
            ms["inverse"] = lambda t, d: t.inverse_transform(M(d / 40))
        out[n] = (t, ms)
    m = ops.MultiplicativeScatterCorrection()
    m.configure(M(pos))
    out["ScatterCorrection"] = (m, {"transform": lambda t, d: t.transform(M(d))})
    for k in (ops.LinearKernel, ops.PolyKernel, ops.RBFKernel):
        out[k.__name__] = (k(), {"apply": lambda t, d: t.apply_matrix(M(d), M(d[:2])), "vector": lambda t, d: t.apply_vector(M(d[:1]), M(d[1:2])), "narrow": lambda t, d: t.apply_matrix(M(d[:, :4]), M(d[:, :4]))})
    return out


def readers(s):
    out = {}
    if s.name == "CCAFilter":
        out = {"transform": lambda o, d: o.transform(M(d["new"])), "response": lambda o, d: o.transform_response(M(d["newy"]))}
    else:
        out = {"transform": lambda o, d: o.transform(M(d["new"]))}
        if hasattr(s.cls, "predict"):
            out["predict"] = lambda o, d: o.predict(M(d["new"]))
    if s.matrices:
        out["matrices"] = lambda o, d: s.matrices(o)
    out["text"] = lambda o, d: o.to_string()
    return out


SHAREABLE = [n for n in SPECS if n not in ("PCA", "FastICA")]


def cases(tier):
    names = list(SPECS)
    for i, a in enumerate(names):
        others = {names[(i + k) % len(names)] for k in (0, 1, 2, 4, 7, 9, 11, 14)} if tier == "thorough" else {a, names[(i + 1) % len(names)], names[(i + 7) % len(names)]}
        for b in others:
            yield {"k": "lives", "a": a, "b": b, "tier": tier}
    for a in SHAREABLE:
        yield {"k": "trained", "a": a, "tier": tier}
    for d in DESIGNS:
        r = DESIGNS[d].shape
        for m in matrix_methods(r):
            for o in matrix_methods(r):
                cached = m in CACHED and o in CACHED
                yield {"k": "matrix", "d": d, "m": m, "o": o, "mode": "lines", "full": True if cached or tier == "thorough" else None}
                if tier == "thorough":
                    yield {"k": "matrix", "d": d, "m": m, "o": o, "mode": "instructions", "full": True if cached else None}
                    if cached:
                        yield {"k": "matrix", "d": d, "m": m, "o": o, "mode": "two", "full": None}
                elif cached and d in ("symmetric", "tall"):
                    yield {"k": "matrix", "d": d, "m": m, "o": o, "mode": "instructions", "full": None}
                    if m == o or o in ("svd_U", "get_eigenvectors"):
                        yield {"k": "matrix", "d": d, "m": m, "o": o, "mode": "two", "full": None}
    names = list(own_ops())
    for i, n in enumerate(names):
        others = [n] + [names[(i + k) % len(names)] for k in range(1, len(names), 3)] if tier == "thorough" else [n] + [names[(i + k) % len(names)] for k in (1, 2, 5, 21)]
        size = 10 if n not in ("sort", "text") else 1
        for k in range(0, len(others), size):
            yield {"k": "own", "n": n, "others": others[k:k + size], "tier": tier}
    ts = list(ops.TRANSFORMATIONS)
    for i, n in enumerate(ts):
        for o in (ts if tier == "thorough" else sorted({n, "Center", "SavitzkyGolay", "RobustScaler"})):
            yield {"k": "transformations", "a": n, "others": [o], "tier": tier}
    for n in shared_transformations():
        yield {"k": "configured", "a": n, "tier": tier}


def run_case(case, c):
    c.sample(case)
    globals()["do_" + case["k"]](case, c)


def settings():
    return list(warnings.filters), sys.getrecursionlimit(), np.random.get_state()[1].tobytes(), random.getstate(), np.geterr()


def compare(c, label, want, run):
    """Executes one schedule."""
    before = settings()
    try:
        got = run.go()
    except sched.Stuck:
        c.fail("%s: the threads wait for each other" % label())
        return
    c.tick(run.switched + 1)
    c.trace()
    for i in (0, 1):
        if not ops.alike(list(got[i]), list(want[i])):
            c.fail("%s: thread %d gets %s, alone %s" % (label(), i + 1, str(got[i])[:300], str(want[i])[:300]))
    if settings() != before:
        c.fail("%s: process-wide settings changed" % label())


def one_preemption(c, label, f, g, full=False, opcodes=False):
    """f is preempted once, at every point; g runs to its end there.  f and g create the objects they need."""
    (a, where), (b, _) = sched.alone(f, opcodes), sched.alone(g, opcodes)
    if a[0] == "err" and b[0] == "err":
        c.guarded += 1
    for i in sched.points(where, full):
        compare(c, lambda: "%s, first thread preempted before step %d (%s:%d)" % (label, i, where[i - 1][0].rsplit("/", 1)[-1], where[i - 1][1]), (a, b), sched.Run([f, g], [(0, i)], opcodes))
    c.state(label)


def two_preemptions(c, label, f, g, full=True, most=None):
    (a, wa), (b, wb) = sched.alone(f), sched.alone(g)
    if most and len(sched.points(wa, full)) * len(sched.points(wb, full)) > most:
        return
    for i in sched.points(wa, full):
        for j in sched.points(wb, full):
            compare(c, lambda: "%s, first thread preempted before step %d (%s:%d), second before step %d" % (label, i, wa[i - 1][0].rsplit("/", 1)[-1], wa[i - 1][1], j), (a, b), sched.Run([f, g], [(0, i), (1, j)]))
    c.state(label, 2)


def do_lives(case, c):
    s, t = SPECS[case["a"]], SPECS[case["b"]]

    def small(o):
        if hasattr(o, "max_iter"):
            o.max_iter = min(o.max_iter, 3)
        return o

    def life(s, d):
        def f():
            o = small(s.make())
            out = {"train": s.train(o, s.data[d])}
            out.update(s.observe(o, s.data[d]))
            if s.matrices:
                out.update(s.matrices(o))
            o.reset()
            return out
        return f
    one_preemption(c, "a life of %s on data A against one of %s on data B" % (case["a"], case["b"]), life(s, "A"), life(t, "B"), full=False if case["tier"] == "thorough" and s is t else None)


def do_trained(case, c):
    s = SPECS[case["a"]]
    o = s.make()
    s.train(o, s.data["A"])
    rs = readers(s)
    one, two = dict(s.data["A"]), dict(s.data["B"])
    two["new"] = np.vstack([two["new"] * 1.5, two["x"][:3]])
    for n, f in rs.items():
        for m, g in rs.items():
            one_preemption(c, "a shared %s: %s against %s" % (case["a"], n, m), lambda: f(o, one), lambda: g(o, two), full=False if case["tier"] == "thorough" else None)


CACHED = ("svd_U", "svd_S", "get_singular_values", "pseudo_inverse", "get_eigenvectors", "get_eigenvectors_sorted_ascending", "get_dominant_eigenvector", "get_eigenvalue_decomposition_D", "get_eigenvalues")


def do_matrix(case, c):
    """A pair of reading methods of one shared matrix whose caches are still empty."""
    d = DESIGNS[case["d"]]
    ms = matrix_methods(d.shape)
    n, o = case["m"], case["o"]
    opcodes = case["mode"] == "instructions"
    box = {}
    f, g = lambda: ms[n](box["m"]), lambda: ms[o](box["m"])

    def alone(h):
        for _ in range(2 if opcodes else 1):
            box["m"] = M(d)
            r = sched.alone(h, opcodes)
        return r
    (a, wa), (b, wb) = alone(f), alone(g)
    label = "a shared %s matrix: %s against %s" % (case["d"], n, o)
    for i in sched.points(wa, case["full"]):
        for j in ([None] if case["mode"] != "two" else sched.points(wb, case["full"])):
            box["m"] = M(d)
            compare(c, lambda: "%s, first thread preempted before step %d (line %d)%s" % (label, i, wa[i - 1][1], "" if j is None else ", second before step %d" % j), (a, b), sched.Run([f, g], [(0, i)] + ([(1, j)] if j else []), opcodes))
            if not np.array_equal(box["m"].data, d):
                c.fail("%s: the matrix changed" % label)
    c.state(label, case["mode"])


def do_own(case, c):
    al = own_ops()
    f = al[case["n"]]
    a1, b1 = c03.base((3, 3))
    a2, b2 = a1 * 1.5 + 1, b1[::-1] - 2.25
    thorough = case["tier"] == "thorough"
    for other in case["others"]:
        g = al[other]
        ff, gg = (lambda: f(M(a1), M(b1))), (lambda: g(M(a2), M(b2)))
        one_preemption(c, "%s against %s" % (case["n"], other), ff, gg, full=(other == case["n"] or None) if case["n"] not in ("sort", "text") else None if other != case["n"] and not thorough else False)
        if other == case["n"] and (thorough or other != "text"):
            two_preemptions(c, "%s twice" % case["n"], ff, gg, full=None if not thorough or case["n"] in ("sort", "text") else False, most=None if thorough else 600)


def do_transformations(case, c):
    pos = np.abs(generic(6, 11, 3)) + 1
    other = np.abs(generic(5, 11, 9)) * 2 + 0.5
    for n, make in ops.TRANSFORMATIONS.items():
        if n not in case["others"]:
            continue
        w = 3 if "PowerTransformer" in (case["a"], n) else 11
        one_preemption(c, "a life of %s against one of %s" % (case["a"], n), lambda: ops.use_transformation(ops.TRANSFORMATIONS[case["a"]], pos[:, :w]), lambda: ops.use_transformation(make, other[:, :w]), full=None if case["tier"] == "quick" or case["a"] == "PowerTransformer" else False)


def do_configured(case, c):
    t, ms = shared_transformations()[case["a"]]
    one, two = np.abs(generic(4, 11, 13)) + 1, np.abs(generic(3, 11, 19)) * 3 + 1
    for n, f in ms.items():
        for m, g in ms.items():
            one_preemption(c, "a shared %s: %s against %s" % (case["a"], n, m), lambda: f(t, one), lambda: g(t, two), full=False if case["tier"] == "thorough" else None)
            one_preemption(c, "a shared %s: %s against %s of the same data" % (case["a"], n, m), lambda: f(t, one), lambda: g(t, one), full=False if case["tier"] == "thorough" else None)
