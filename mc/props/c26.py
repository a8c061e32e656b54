"""C26: seeded randomness and absence of global side effects."""
import contextlib
import decimal
import gc
import json
import locale
import os
import random
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np

from wai.ma.core.matrix import factory

from .. import ops
from ..util import M, A, generic, show

META = {
    "bounds": "about 1000 operations covering the public API (matrix operations, factories, helpers, text and binary IO, transformations, filters, kernels, every algorithm with every accepted and rejected parameter, failing calls included) x 4 ambient states (generators, floating-point settings, recursion limit, warnings filters, directory) observed before and after; every ordered pair (any operation, seeded operation), also with the generators reseeded in between; all shapes up to 5x5 x 60 seeds; 4 processes with different hash seeds, directories and histories",
    "oracle": "equality of the complete process-wide state; equality with the result in a fresh state; pairwise difference between seeds",
    "assumptions": ["results are compared up to 1e-9 (relative), as numpy may round differently for differently aligned arrays"],
}

CHUNKS = 40


def scratch():
    return os.environ.get("MC_SCRATCH", "/tmp")


def cases(tier):
    for i in range(CHUNKS):
        yield {"k": "effects", "i": i}
        yield {"k": "pairs", "i": i, "tier": tier}
    for r in range(1, 6):
        yield {"k": "seeds", "rows": r, "tier": tier}
    yield {"k": "randn"}
    yield {"k": "unseeded"}
    for i in range(4 if tier == "quick" else 12):
        yield {"k": "process", "i": i}


def run_case(case, c):
    c.sample(case)
    globals()["do_" + case["k"]](case, c)


def world():
    """The process-wide state an operation must leave alone."""
    r = np.random.get_state()
    return {
        "numpy's random generator": (r[0], r[1].tobytes(), r[2:]), "the random module": random.getstate(), "numpy's error settings": np.geterr(), "numpy's error handler": np.geterrcall(),
        "the recursion limit": sys.getrecursionlimit(), "the warnings filters": list(warnings.filters), "the warnings hook": (warnings.showwarning, warnings.formatwarning), "the working directory": os.getcwd(),
        "the environment": dict(os.environ), "the module path": list(sys.path), "the print options": {k: v for k, v in np.get_printoptions().items()}, "the decimal context": repr(decimal.getcontext()),
        "the locale": locale.setlocale(locale.LC_ALL), "the standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "the switch interval": sys.getswitchinterval(), "trace functions": (sys.gettrace(), sys.getprofile()), "threads": threading.active_count(), "hooks": (sys.excepthook, sys.displayhook, threading.excepthook),
        "signal handlers": (signal.getsignal(signal.SIGINT), signal.getsignal(signal.SIGTERM)), "the umask": mask(),
    }


def mask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def changed(a, b):
    return [k for k in a if a[k] != b[k]]


@contextlib.contextmanager
def ambient(i):
    """One of four process-wide states; everything is put back afterwards."""
    cwd, limit, state, pystate = os.getcwd(), sys.getrecursionlimit(), np.random.get_state(), random.getstate()
    opts = np.get_printoptions()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        try:
            if i == 1:
                np.random.seed(99)
                random.seed(5)
                np.random.standard_normal(3)
                sys.setrecursionlimit(3000)
                warnings.filterwarnings("default", "never emitted")
            elif i == 2:
                np.random.seed(1)
                np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
                warnings.simplefilter("always")
                os.chdir(tempfile.gettempdir())
                np.set_printoptions(precision=3)
            elif i == 3:
                np.random.seed(0)
                random.seed(0)
                warnings.simplefilter("once")
                sys.setrecursionlimit(5000)
            yield
        finally:
            os.chdir(cwd)
            sys.setrecursionlimit(limit)
            np.random.set_state(state)
            random.setstate(pystate)
            np.set_printoptions(**opts)


def part(d, i):
    return {k: d[k] for n, k in enumerate(d) if n % CHUNKS == i}


def do_effects(case, c):
    for name, f in part(ops.everything(scratch()), case["i"]).items():
        first = None
        for amb in (0, 1, 2, 3):
            with ambient(amb):
                before = world()
                got = ops.observed(f)
                after = world()
                c.tick()
                c.trace()
                if got[0] == "ok" and "unseeded" in name:
                    continue
                diff = changed(before, after)
                if diff:
                    c.fail("%s changed %s" % (name, ", ".join(diff)))
            if first is None:
                first = got
            elif name != "(3, 3) str" and not ops.alike(got, first):
                c.fail("%s depends on the process-wide state: %s, before %s" % (name, str(got)[:300], str(first)[:300]))
            c.state(name, amb)


_BASE = {}


def baseline():
    if not _BASE:
        for n, f in ops.random_ops().items():
            _BASE[n] = ops.observed(f)
    return _BASE


def do_pairs(case, c):
    base = baseline()
    seeded = ops.random_ops()
    quick = [n for n in seeded if case["tier"] == "thorough" or not n.startswith("PRM")]
    for name, f in part(ops.everything(scratch()), case["i"]).items():
        for reseed in (None, 4711):
            for s in quick:
                if reseed is not None and s.startswith(("FastICA", "KernelPLS", "PRM")) and case["tier"] == "quick":
                    continue
                with ambient(0):
                    ops.observed(f)
                    if reseed is not None:
                        np.random.seed(reseed)
                        random.seed(reseed)
                        np.random.rand(3)
                    got = ops.observed(seeded[s])
                c.tick(2)
                c.check(ops.alike(got, base[s]), lambda: "%s gives %s after %s%s, before %s" % (s, str(got)[:300], name, " and reseeding" if reseed else "", str(base[s])[:300]))
        c.trace()
        c.state(name)


SEEDS = list(range(40)) + [99, 100, 255, 256, 1000, 4711, 65535, 65536, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]


def do_seeds(case, c):
    r = case["rows"]
    makers = {"rand": lambda p, s: factory.rand(r, p, s), "randn": lambda p, s: factory.randn(r, p, s), "rand_like": lambda p, s: factory.rand_like(M(np.zeros((r, p))), s), "randn_like": lambda p, s: factory.randn_like(M(np.ones((r, p))), s),
              "randn mean": lambda p, s: factory.randn(r, p, s, 3.0, 2.0)}
    for name, f in makers.items():
        for p in range(1, 6):
            seen = {}
            for s in SEEDS:
                a = A(f(p, s))
                c.tick()
                c.check(a.shape == (r, p) and np.isfinite(a).all(), "%s(%d,%d,%d) is %s" % (name, r, p, s, show(a)))
                c.check(np.array_equal(a, A(f(p, s))), "%s(%d,%d,%d) differs between two calls" % (name, r, p, s))
                if len(set(a.ravel())) != a.size:
                    c.fail("%s(%d,%d,%d) repeats values: %s" % (name, r, p, s, show(a)))
                if name.startswith("rand") and not name.startswith("randn"):
                    c.check((a >= 0).all() and (a < 1).all(), "%s(%d,%d,%d) outside [0,1): %s" % (name, r, p, s, show(a)))
                key = a.tobytes()
                c.check(key not in seen, lambda: "%s(%d,%d): seeds %s and %d give the same values" % (name, r, p, seen.get(key), s))
                seen[key] = s
                c.state(name, r, p, s)
            # every order of asking for two seeds
            for s, t in ((0, 1), (1, 0), (5, 2), (2, 2 ** 32 - 1)):
                x, y, x2 = A(f(p, s)), A(f(p, t)), A(f(p, s))
                c.check(np.array_equal(x, x2) and not np.array_equal(x, y), "%s(%d,%d): seeds %d and %d depend on each other" % (name, r, p, s, t))
            c.trace()
        if name.endswith("_like"):
            for p in range(1, 6):
                for s in SEEDS:
                    c.check(np.array_equal(A(f(p, s)), A(makers[name[:-5]](p, s))), "%s differs from %s for %dx%d, seed %d" % (name, name[:-5], r, p, s))


def do_randn(case, c):
    """Normal numbers with the requested mean and deviation (recorded finding: uniform numbers, both ignored)."""
    for seed in (0, 1, 2, 7, 4711):
        for mean, std in ((0.0, 1.0), (5.0, 1.0), (0.0, 3.0), (-2.0, 0.25), (1.0, 0.0)):
            for how, m in (("randn", factory.randn(60, 50, seed, mean, std)), ("randn_like", factory.randn_like(M(np.zeros((60, 50))), seed, mean, std))):
                a = A(m)
                c.trace()
                c.state(seed, mean, std, how)
                se = max(std, 1e-12) / np.sqrt(a.size)
                normal = abs(a.mean() - mean) < 6 * se and abs(a.std() - std) < 6 * se and (std == 0 or abs((np.abs(a - mean) < std).mean() - 0.6827) < 0.06)
                if c.check(True, "") and normal:
                    continue
                if np.array_equal(a, A(factory.rand(60, 50, seed))):
                    c.known("randn-uniform", "seed %d, mean %g, std %g" % (seed, mean, std))
                else:
                    c.fail("%s(seed %d, mean %g, std %g) has mean %g and deviation %g" % (how, seed, mean, std, a.mean(), a.std()))


def do_unseeded(case, c):
    """A subsampling quantile transformation without seed (recorded finding: draws from the process-wide generator)."""
    data = generic(12, 3, 5)
    for subsample in (5, 11, 12, 100000):
        for seed in (None, 0, 7):
            results, touched = [], False
            for amb in (0, 1, 2, 3):
                with ambient(amb):
                    before = world()
                    results.append(ops.observed(lambda: ops.use_transformation(lambda: ops.quantile(seed, subsample), data)))
                    diff = changed(before, world())
                    c.tick()
                    if diff == ["numpy's random generator"] and seed is None and subsample < 12:
                        touched = True
                    elif diff:
                        c.fail("a quantile transformation (subsample %d, seed %s) changed %s" % (subsample, seed, ", ".join(diff)))
            same = all(ops.alike(r, results[0]) for r in results)
            c.state(subsample, seed)
            c.trace()
            if touched:
                c.known("quantile-unseeded", "subsample %d of 12 rows" % subsample)
            elif not same:
                c.fail("a quantile transformation (subsample %d, seed %s) depends on the process-wide state" % (subsample, seed))


CHILD = """
import sys, random, warnings, os
import numpy as np
warnings.simplefilter("ignore")
np.seterr(all="ignore")
i = int(sys.argv[1])
if i % 2:
    np.random.seed(i)
    random.seed(i)
if i % 4 > 1:
    os.chdir("/")
import pickle, io
from mc import ops
items = list(ops.random_ops().items())
if i % 3 == 1:
    items.reverse()
elif i % 3 == 2:
    items = items[len(items) // 2:] + items[:len(items) // 2]
out = sys.stdout
sys.stdout = io.StringIO()
res = {n: ops.observed(f) for n, f in items}
out.buffer.write(pickle.dumps(res))
out.flush()
"""


def do_process(case, c):
    import pickle
    env = dict(os.environ, PYTHONHASHSEED=str(case["i"] * 17))
    r = subprocess.run([sys.executable, "-c", CHILD, str(case["i"])], env=env, capture_output=True, timeout=50)
    if r.returncode:
        c.fail("the seeded operations can't be executed in another process: " + r.stderr.decode()[-600:])
        return
    got = pickle.loads(r.stdout)
    for n, want in baseline().items():
        c.check(ops.alike(got[n], want), lambda: "%s gives %s in another process, here %s" % (n, str(got[n])[:300], str(want)[:300]))
        c.state(case["i"], n)
    c.trace()
