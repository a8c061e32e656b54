"""C09: results depend only on the parameters and the last training data."""
import itertools

import numpy as np

from wai.ma.core.matrix import factory  # noqa
from wai.ma.transformation import Center, Standardize, Log, RobustScaler, PowerTransformer, QuantileTransformer, MultiplicativeScatterCorrection, SavitzkyGolay, FFT
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from .. import life, refs
from ..algos import SPECS, agree, arr
from ..util import M, A, generic, show

META = {
    "bounds": "18 algorithms/modes; all histories up to depth 2 over the full alphabet (3 over a reduced one; thorough 3 and 4) of training on 3 data sets, failed training, use, reset, re-initialisation, accepted and rejected parameters, each followed by a training; "
              "all parameter excursions (set, train, restore, train); all ordered pairs of algorithms interleaved (create, train, train the other, change the other, reset the other, observe); two instances of one class under all interleavings of 2+2 operations; "
              "kernels shared between models and data widths; transformations after excursions",
    "oracle": "an object created fresh with the same parameter values and trained once on the same data; for DIPLS a numpy model with the stale centres identifies the recorded finding exactly",
    "assumptions": [],
}


def cases(tier):
    for n, s in SPECS.items():
        for full, depth in ([(True, 3), (False, 4)] if tier == "thorough" else [(True, 2), (False, 3)]):
            for first in life.alphabet(s, full):
                yield {"k": "hist", "a": n, "full": full, "depth": depth, "first": first}
        yield {"k": "excursion", "a": n}
        yield {"k": "twins", "a": n}
        for m in SPECS:
            yield {"k": "pair", "a": n, "b": m}
    yield {"k": "kernels"}
    yield {"k": "transformations"}


def run_case(case, c):
    c.sample(case)
    globals()["do_" + case["k"]](case, c)


def dipls_stale(s, st, d):
    """What DIPLS returns when its centres are those of its first training."""
    mode = s.name.split()[1]
    val = lambda params, k, default: dict(params)[k].make() if k in dict(params) else default

    def parts(data):
        h = len(data["x"]) // 2 + 1
        return data["x"][:h], data["x"][h:], data["new"], data["y"][:h], data["y"][h:]

    def model(data, params, centres):
        pt = dict(params).get("preprocessing_type")
        return refs.dipls(*parts(data), mode, val(params, "lambda_", 1.0), val(params, "num_components", 2), pt.make().name.lower() if pt else "none", centres)
    first = model(s.data[st.centred[0]], st.centred[1], None)
    m = model(s.data[d], st.plist(), first["centres"])
    data = s.data[d]
    return {"predict": m["predict"](data["new"]), "transform": m["transform"](data["new"]), "predict training": m["predict"](data["x"])}


def compare(c, s, o, st, label):
    """The object's observations against those of a fresh object with the same parameters and training data."""
    d = st.trained
    want = life.fresh_observation(s, st.plist(), d)
    c.tick()
    try:
        got = dict(s.observe(o, s.data[d]), **(s.matrices(o) if s.matrices else {}))
    except Exception as e:
        got = None
        c.fail("%s after %s: trained, but gives %r" % (s.name, label, e))
        return
    if agree(got, want[1]):
        return
    if s.name.startswith("DIPLS") and st.centred is not None:
        stale = dipls_stale(s, st, d)
        if agree({k: got[k] for k in stale}, stale, 1e-6):
            c.known("dipls-centres", "%s after %s" % (s.name, label))
            return
    bad = [k for k in want[1] if k not in got or not agree({k: got[k]}, {k: want[1][k]})]
    c.fail("%s after %s: %s differs from a fresh object trained the same way: %s, fresh: %s" % (s.name, label, bad[0], show(got[bad[0]]) if got[bad[0]] is not None else None, show(want[1][bad[0]]) if want[1][bad[0]] is not None else None))


def do_hist(case, c):
    s = SPECS[case["a"]]
    al = life.alphabet(s, case["full"])
    first = tuple(case["first"])
    for n in range(0, case["depth"]):
        for rest in itertools.product(al, repeat=n):
            for last in ("A", "B"):
                h = (first,) + rest + (("train", last),)
                o, st = s.make(), life.State()
                for i, op in enumerate(h):
                    c.tick()
                    msg = life.step(s, o, st, op)
                    if msg:
                        # readiness is judged elsewhere; here only a training that depends on the past matters
                        if op[0] == "train":
                            c.fail("%s after %s: %s" % (s.name, h[:i + 1], msg))
                        break
                else:
                    if st.trained is not None:
                        compare(c, s, o, st, h)
                c.trace()
                c.state(s.name, st.key())


def do_excursion(case, c):
    s = SPECS[case["a"]]
    for i, (k, val) in enumerate(s.good):
        for j, (k2, val2) in enumerate([(None, None)] + s.good):
            for d1, d2 in itertools.product("AB", repeat=2):
                o = s.make()
                orig = {k: getattr(o, k)}
                if k2 is not None:
                    orig[k2] = getattr(o, k2)
                st = life.State()
                life.step(s, o, st, ("train", d1))
                setattr(o, k, val.make())
                if k2 is not None:
                    setattr(o, k2, val2.make())
                try:
                    s.train(o, s.data[d1])
                    s.observe(o, s.data[d1])
                except Exception:
                    pass
                for kk, vv in orig.items():
                    setattr(o, kk, vv)
                if s.name == "FastICA":
                    o.num_components = 2
                msg = life.step(s, o, st, ("train", d2))
                if msg:
                    c.fail("%s after trying %s=%r: %s" % (s.name, k, val, msg))
                elif st.trained:
                    compare(c, s, o, st, "training, trying %s=%r %s, and restoring" % (k, val, k2 and "%s=%r" % (k2, val2)))
                c.trace()
                c.state(s.name, i, j, d1, d2)


def do_pair(case, c):
    s, t = SPECS[case["a"]], SPECS[case["b"]]
    for created in ("before", "after"):
        a, sa = s.make(), life.State()
        b = t.make() if created == "before" else None
        life.step(s, a, sa, ("train", "A"))
        if b is None:
            b = t.make()
        sb = life.State()
        life.step(t, b, sb, ("train", "B"))
        compare(c, s, a, sa, "training a %s" % t.name)
        compare(c, t, b, sb, "training a %s" % s.name)
        if t.good:
            life.step(t, b, sb, ("set", len(t.good) - 1))
            life.step(t, b, sb, ("train", "A"))
        compare(c, s, a, sa, "changing and training a %s" % t.name)
        b.reset()
        compare(c, s, a, sa, "resetting a %s" % t.name)
        life.step(s, a, sa, ("train", "B"))
        if not s.name.startswith("DIPLS"):
            compare(c, s, a, sa, "retraining next to a %s" % t.name)
        f = life.State()
        fresh = s.make()
        life.step(s, fresh, f, ("train", "A"))
        compare(c, s, fresh, f, "other objects (%s) existed" % t.name)
        c.trace()
        c.state(s.name, t.name, created)


def do_twins(case, c):
    """Two instances of one class: all interleavings of two two-step programs."""
    s = SPECS[case["a"]]
    progs = [[("train", "A")], [("train", "B")], [("train", "A"), ("reset",)], [("train", "B"), ("train", "A")]]
    for i in range(len(s.good)):
        progs += [[("set", i), ("train", "A")], [("set", i), ("train", "B")]]
    for p, q in itertools.product(progs, repeat=2):
        for order in set(itertools.permutations([0] * len(p) + [1] * len(q))):
            objs = [s.make(), s.make()]
            sts = [life.State(), life.State()]
            it = [iter(p), iter(q)]
            bad = None
            for who in order:
                op = next(it[who])
                c.tick()
                msg = life.step(s, objs[who], sts[who], op)
                if msg:
                    c.fail("%s: two instances running %s and %s in order %s: %s" % (s.name, p, q, order, msg))
                    bad = True
                    break
            if bad:
                continue
            for who in (0, 1):
                if sts[who].trained:
                    compare(c, s, objs[who], sts[who], "two instances running %s and %s in order %s" % (p, q, order))
            c.trace()
            c.state(s.name, tuple(p), tuple(q), order)


def do_kernels(case, c):
    """One kernel object shared by models on data of different width gives what separate kernels give."""
    s = SPECS["KernelPLS"]
    for kernel in (LinearKernel, PolyKernel, RBFKernel):
        for gamma in (None, float("nan"), 0.3):
            def mk():
                k = kernel()
                if gamma is not None and hasattr(k, "gamma"):
                    k.gamma = gamma
                return k
            for order in itertools.permutations("ABC"):
                shared = mk()
                objs = {}
                for d in order:
                    o = s.make()
                    o.kernel = shared
                    s.train(o, s.data[d])
                    objs[d] = o
                for d in order:
                    f = s.make()
                    f.kernel = mk()
                    s.train(f, s.data[d])
                    c.check(agree(s.observe(objs[d], s.data[d]), s.observe(f, s.data[d])), "a %s shared in order %s gives other results on %s" % (kernel.__name__, order, d))
                c.trace()
                c.state(kernel.__name__, str(gamma), order)


def do_transformations(case, c):
    x, y, z = generic(6, 9, 1) + 20, generic(5, 9, 2) * 2 + 40, generic(4, 8, 3) + 30
    mk = [Center, Standardize, Log, RobustScaler, QuantileTransformer, SavitzkyGolay, FFT, PowerTransformer, MultiplicativeScatterCorrection]
    for cls in mk:
        for hist in itertools.product("xyz", repeat=2):
            for last in "xy":
                t = cls()
                for h in hist:
                    t.configure(M({"x": x, "y": y, "z": z}[h]))
                    t.transform(M({"x": x, "y": y, "z": z}[h]))
                other = cls()
                t.configure(M({"x": x, "y": y}[last]))
                other.configure(M(z))
                f = cls()
                f.configure(M({"x": x, "y": y}[last]))
                c.check(np.allclose(np.array(t.transform(M(y)).data), np.array(f.transform(M(y)).data), 1e-10, 1e-10), "%s configured with %s then %s differs from a fresh one" % (cls.__name__, hist, last))
                c.trace()
                c.state(cls.__name__, hist, last)
