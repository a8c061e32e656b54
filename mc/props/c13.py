"""C13: centring and standardisation by a model equal doing it to the data."""
import itertools

import numpy as np

from wai.ma.core import PreprocessingType

from .. import refs
from ..algos import SPECS
from ..designs import regress, VARIANTS
from ..util import M, A, show

META = {
    "bounds": "12 PLS algorithms/modes with default and each accepted value of every other parameter x centring and standardisation (and none) x 6 shapes x 11 data variants (shifts of 300, scales 1e-5..1e5, constant and duplicate columns, integers) x 1 to 3 responses (and more responses than rows) x 1 to 3 components; training data, new rows and batches with other statistics (shifted, scaled, single row, constant)",
    "oracle": "the same algorithm without preprocessing trained on data centred/standardised in numpy, its predictions mapped back in numpy; the statistics of the training data (for domain adaptation: of all training sets together)",
    "assumptions": ["comparisons on designs whose plain result moves by more than 1e-3 when the data move by 1e-10 are skipped and counted as guarded"],
}

SHAPES = [(6, 2), (7, 3), (9, 5), (12, 4), (6, 6), (8, 1)]
ALGS = [n for n, s in SPECS.items() if hasattr(s.cls, "predict")]
MULTI = ("NIPALS", "CCARegression", "KernelPLS")
MODES = {"none": PreprocessingType.NONE, "center": PreprocessingType.CENTER, "standardize": PreprocessingType.STANDARDIZE}


def cases(tier):
    for a in ALGS:
        for n, p in SHAPES:
            for var in VARIANTS:
                if p == 1 and var in ("const", "dup"):
                    continue
                for q in (((1, 2, 3) + ((n + 1,) if n == 6 else ())) if a in MULTI else (1,)):
                    for seed in range(4 if tier == "thorough" else 1):
                        yield {"a": a, "n": n, "p": p, "var": var, "q": q, "seed": seed}


def parts(name, x, y, new):
    """The training matrices of an algorithm in call order, with their kind."""
    if not name.startswith("DIPLS"):
        return [(x, "x"), (y, "y")]
    h = len(x) // 2 + 1
    if name.endswith("unsupervised"):
        return [(x[:h], "x"), (x[h:], "x"), (y[:h], "y")]
    out = [(x[:h], "x"), (x[h:], "x"), (y[:h], "y"), (y[h:], "y")]
    if name.endswith("semisupervised"):
        out.insert(2, (new, "x"))
    return out


def train(name, o, ps):
    ms = [M(a) for a, _ in ps]
    if name.endswith("unsupervised"):
        return o.initialize_unsupervised(*ms)
    if name == "DIPLS supervised":
        return o.initialize_supervised(*ms)
    if name.endswith("semisupervised"):
        return o.initialize_semisupervised(*ms)
    return o.initialize(*ms)


def params(s):
    out = [()]
    for k, val in s.good:
        if k not in ("preprocessing_type", "num_components"):
            out.append(((k, val),))
    return out


def run_case(case, c):
    c.sample(case)
    name = case["a"]
    s = SPECS[name]
    x, y, new = regress(case["n"], case["p"], case["q"], case["var"], 50 * case["seed"])
    ps = parts(name, x, y, new)
    allx = np.vstack([a for a, k in ps if k == "x"])
    ally = np.vstack([a for a, k in ps if k == "y"])
    batches = {"training": x, "new": new, "one row": new[:1], "far away": new * 3 + 50 * np.abs(x).max(), "constant": np.repeat(new[1:2], 3, axis=0), "tight": x[:1] + (new - new[0]) * 1e-6}
    for extra in params(s):
        for mode in MODES:
            px, py = refs.Prep(mode, allx), refs.Prep(mode, ally)
            prepped = [((px if k == "x" else py)(a), k) for a, k in ps]
            for k in range(1, min(3, case["p"], case["n"] - 2) + 1):
                judge(c, case, name, s, extra, mode, k, ps, prepped, px, py, batches)


def make(s, extra, k, mode):
    o = s.fresh(extra)
    if s.name == "OPLS":
        o.base_PLS.num_components = 1
    if s.name == "PRM" and not any(n == "max_iter" for n, _ in extra):
        o.max_iter = 25         # bounds the work on data where it never meets its stopping rule
    o.num_components = k
    o.preprocessing_type = MODES[mode]
    return o


def wob(a, d, columns=False):
    """The data moved by d (constant columns stay constant)."""
    sign = np.where(np.arange(a.size).reshape(a.shape) % 3 == 1, -1, 1)
    if columns:
        sign = np.broadcast_to(np.where(np.arange(a.shape[1]) < a.shape[1] / 2, -1, 1), a.shape)
    return a * (1 + d * np.where((a == a[0]).all(axis=0), 1, sign))


def answers(o, batches, px=None, py=None):
    out = {}
    for b, rows in batches.items():
        rows = px(rows) if px else rows
        r = A(o.predict(M(rows)))
        out["prediction for " + b] = py.back(r) if py else r
        out["transformation of " + b] = A(o.transform(M(rows)))
    return out


def aligned(g, w):
    """The answers g with the direction of every component (which eigenvectors leave open) chosen as in w."""
    a, b = g["transformation of training"], w["transformation of training"]
    if a.shape != b.shape:
        return g
    sign = np.where((a * b).sum(axis=0) < 0, -1, 1)
    return {k: v * sign if k.startswith("trans") and v.ndim == 2 and v.shape[1] == len(sign) else v for k, v in g.items()}


def rank(x):
    sv = np.linalg.svd(x, compute_uv=False)
    return int((sv > 1e-9 * max(sv[0], 1e-300)).sum())


def judge(c, case, name, s, extra, mode, k, ps, prepped, px, py, batches):
    label = "%s %s %s %d components, %s" % (name, list(extra), mode, k, case)
    c.tick()
    models = []
    try:
        for d, columns in ((0, False), (1e-10, False), (-1e-10, False), (1e-10, True), (-1e-10, True)):
            models.append(make(s, extra, k, "none"))
            r = train(name, models[-1], [(wob(a, d, columns) if d else a, kk) for a, kk in prepped])
            if r is not None:
                raise ValueError(r)
        want, *others = [answers(o, batches, px, py) for o in models]
    except Exception:
        c.guarded += 1
        return
    if name == "VCPLS":
        others = [aligned(a, want) for a in others]
    o = make(s, extra, k, mode)
    try:
        r = train(name, o, ps)
        got = answers(o, batches) if r is None else None
        if got is not None and name == "VCPLS":
            got = aligned(got, want)
    except Exception as e:
        if isinstance(e, np.linalg.LinAlgError) and k >= min(rank(a - a.mean(axis=0)) for a, kk in prepped if kk == "x"):
            c.guarded += 1      # more components than one of the domains has: only rounding keeps the equations solvable
            return
        r = repr(e)
        got = None
    spread = np.abs(py.back(np.ones((1, case["q"]))) - py.back(np.zeros((1, case["q"])))).max()
    for key in want:
        if name == "SparsePLS" and key in ("transformation of one row", "transformation of constant", "transformation of tight"):
            continue            # depends on the variation within the batch (finding of C11)
        w, m = want[key], np.stack([o[key] for o in others])
        c.tick()
        if not (np.isfinite(w).all() and np.isfinite(m).all()):
            c.guarded += 1
            continue
        # predictions are judged relative to the size of the responses' variation as well as their offset
        scale = np.abs(w - py.mean).max() + 1e-9 * np.abs(w).max() + 1e-9 * spread if key.startswith("pred") and w.shape[1] == case["q"] else np.abs(w).max()
        move = np.abs(w - m).max() / max(scale, 1e-300)
        tol = 1e-8 + 100 * move
        if tol > 1e-1 or (scale < 1e-9 * np.abs(px.sd).max() and not key.startswith("pred")):
            c.guarded += 1
            continue
        if got is None:
            c.fail("%s: fails with %s although the plain model on preprocessed data doesn't" % (label, r))
            return
        g = got[key]
        if g.shape != w.shape or not np.isfinite(g).all() or np.abs(g - w).max() > tol * scale + 1e-13 * (np.abs(w).max() + (spread if key.startswith("pred") else 0)):
            c.fail("%s: %s is %s, with preprocessed data %s" % (label, key, show(g), show(w)))
    c.trace()
    c.state(case, list(map(str, extra)), mode, k)
