"""C24: FFT."""
import cmath
import math

import numpy as np

from wai.ma.transformation import FFT
from wai.ma.transformation._FFT import OutputMode

from ..util import M, generic, show

META = {
    "bounds": "row lengths 1..20 (thorough 40) x row counts 1..6 (8), rows of up to 257 values and up to 300 rows, all unit impulses, constant rows, all pure cosines and generic rows, 6 output modes (by name and by number; the inverse also of every other polar form of single and all pairs) x orthonormal flag, forward and (pair modes) inverse; "
              "mode and flag changed between uses in every order; inverse of the other modes; illegal modes",
    "oracle": "the defining sum evaluated per coefficient; a rotation of whole rows by half their number is the recorded finding and nothing else is accepted",
    "assumptions": ["phases are judged where the amplitude is not zero within rounding"],
}

MODES = [OutputMode.REAL_COMPONENT_ONLY, OutputMode.IMAG_COMPONENT_ONLY, OutputMode.REAL_AND_IMAG_PAIRS, OutputMode.AMPLITUDE_ONLY, OutputMode.PHASE_ANGLE_ONLY, OutputMode.AMPL_ANGLE_PAIRS]


def cases(tier):
    top = 40 if tier == "thorough" else 20
    rows = 8 if tier == "thorough" else 6
    for n in range(1, top + 1):
        for r in range(1, rows + 1):
            yield {"k": "value", "n": n, "r": r}
        yield {"k": "basis", "n": n}
    for n in (33, 64, 100, 127, 128, 257):
        yield {"k": "value", "n": n, "r": 3}
        yield {"k": "value", "n": n, "r": 4}
    for r in (7, 9, 16, 33, 64, 300):
        yield {"k": "value", "n": 8, "r": r}
        yield {"k": "value", "n": 5, "r": r}
    yield {"k": "settings"}


def coefs(row, ortho):
    n = len(row)
    out = []
    for k in range(n // 2 + 1):
        s = sum(row[j] * cmath.exp(-2j * math.pi * ((j * k) % n) / n) for j in range(n))
        out.append(s / math.sqrt(n) if ortho else s)
    return out


def expect(rows, ortho, mode):
    """(values, is_phase mask, judged mask)"""
    vals, ph, ok = [], [], []
    for row in rows:
        f = coefs(row, ortho)
        n = len(row)
        scale = 1e-9 * (np.abs(row).sum() + 1e-300)
        v, p, j = [], [], []

        def put(x, phase=False, good=True):
            v.append(x), p.append(phase), j.append(good)
        for k, z in enumerate(f):
            pure = k == 0 or (n % 2 == 0 and k == n // 2)
            if pure:
                z = complex(z.real, 0.0)
            if mode is OutputMode.REAL_COMPONENT_ONLY:
                put(z.real)
            elif mode is OutputMode.IMAG_COMPONENT_ONLY:
                put(z.imag)
            elif mode is OutputMode.AMPLITUDE_ONLY:
                put(abs(z))
            elif mode is OutputMode.PHASE_ANGLE_ONLY:
                put(cmath.phase(z), True, abs(z) > scale)
            elif pure:
                put(z.real)
            elif mode is OutputMode.REAL_AND_IMAG_PAIRS:
                put(z.real), put(z.imag)
            else:
                put(abs(z)), put(cmath.phase(z), True, abs(z) > scale)
        vals.append(v), ph.append(p), ok.append(j)
    return np.array(vals), np.array(ph, bool), np.array(ok, bool)


def agrees(got, want, phase, good, scale):
    if got.shape != want.shape or not np.isrealobj(got):
        return False
    d = np.abs(got - want)
    d = np.where(phase, np.minimum(d, np.abs(2 * math.pi - d)), d)
    tol = np.where(phase, 1e-6, 1e-10 * scale)
    return bool((d <= tol)[good].all())


def run_case(case, c):
    c.sample(case)
    globals()["do_" + case["k"]](case, c)


def one(c, x, label):
    r, n = x.shape
    scale = np.abs(x).sum(axis=1, keepdims=True) + 1e-300
    for ortho in (False, True):
        for mode in MODES:
            t = FFT()
            t.orthonormalisation, t.output_mode = ortho, mode
            got = np.array(t.transform(M(x)).data)
            w, p, g = expect(x, ortho, mode)
            rot = lambda a: np.roll(a, r // 2, axis=0)
            rotated = False
            c.tick()
            if agrees(got, w, p, g, scale):
                pass
            elif r > 1 and agrees(got, rot(w), rot(p), rot(g), rot(scale)):
                c.known("fft-row-rotation", "%d rows" % r)
                rotated = True
            else:
                c.fail("FFT(%s, ortho=%s) of %s %s: %s expected %s" % (mode.name, ortho, label, show(x, 24), show(got, 24), show(w, 24)))
                continue
            try:
                back = np.array(t.inverse_transform(M(got)).data)
            except Exception as e:
                back = e
            if mode in (OutputMode.REAL_AND_IMAG_PAIRS, OutputMode.AMPL_ANGLE_PAIRS):
                ok = isinstance(back, np.ndarray) and back.shape == x.shape and bool((np.abs(back - x) <= 1e-9 * scale).all())
                c.check(ok, lambda: "FFT(%s, ortho=%s) inverse of %s gave %s" % (mode.name, ortho, show(x), back))
                # on an image computed independently
                img = rot(w) if rotated else w
                back2 = np.array(FFT_with(mode, ortho).inverse_transform(M(img)).data)
                c.check(back2.shape == x.shape and bool((np.abs(back2 - x) <= 1e-9 * scale).all()), lambda: "FFT(%s, ortho=%s) inverse of the reference image of %s gave %s" % (mode.name, ortho, show(x), back2))
                if mode is OutputMode.AMPL_ANGLE_PAIRS:
                    # other polar coordinates of the same coefficients
                    last = img.shape[1] - (1 if n % 2 == 0 else 0)
                    for i in list(range(1, last, 2)) + ["all"]:
                        at = np.arange(1, last, 2) if i == "all" else np.array([i])
                        for sign, turn in ((-1, math.pi), (1, 2 * math.pi), (-1, -math.pi), (1, -4 * math.pi)):
                            other = img.copy()
                            other[:, at] *= sign
                            other[:, at + 1] += turn
                            back3 = np.array(FFT_with(mode, ortho).inverse_transform(M(other)).data)
                            c.tick()
                            c.check(back3.shape == x.shape and bool((np.abs(back3 - x) <= 1e-9 * scale).all()),
                                    lambda: "FFT(%s, ortho=%s) inverse of %s (coefficients of %s in other polar coordinates) gave %s" % (mode.name, ortho, show(other), show(x), back3))
            else:
                c.check(isinstance(back, Exception), lambda: "FFT(%s) has an inverse: %s" % (mode.name, back))
            c.trace()
            c.state(mode.name, ortho, x.tobytes())


def FFT_with(mode, ortho):
    t = FFT()
    t.output_mode, t.orthonormalisation = mode, ortho
    return t


def do_value(case, c):
    r, n = case["r"], case["n"]
    one(c, generic(r, n, n), "generic")
    one(c, generic(r, n, n + 1, 1e6, 3e6), "offset")
    one(c, generic(r, n, n + 2, 1e-6), "tiny")


def do_basis(case, c):
    n = case["n"]
    rows = [np.eye(n)[i] for i in range(n)] + [np.full(n, v) for v in (1.0, -2.0)]
    rows += [np.cos(2 * math.pi * k * np.arange(n) / n + s) for k in range(n // 2 + 1) for s in (0.0, 1.0)]
    for x in rows:
        one(c, x.reshape(1, -1), "basis")


def do_settings(case, c):
    import itertools
    x = generic(1, 9, 4)
    scale = np.abs(x).sum()
    for h in itertools.product(range(len(MODES)), repeat=2):
        for flags in itertools.product((False, True), repeat=2):
            for inv in (False, True):
                t = FFT()
                for i, o in zip(h, flags):
                    mode = MODES[i]
                    t.output_mode = mode.value if inv else mode
                    t.orthonormalisation = o
                    c.check(t.output_mode is mode, "output_mode = %r is stored as %r" % (mode.value, t.output_mode))
                    w, p, g = expect(x, o, mode)
                    got = np.array(t.transform(M(x)).data)
                    c.check(agrees(got, w, p, g, scale), lambda: "after settings %s %s: %s expected %s" % (h, flags, show(got), show(w)))
                    if inv and mode in (OutputMode.REAL_AND_IMAG_PAIRS, OutputMode.AMPL_ANGLE_PAIRS):
                        c.check(np.allclose(np.array(t.inverse_transform(M(got)).data), x), "inverse after settings %s %s" % (h, flags))
                    if inv:
                        t.reset()
                c.trace()
                c.state(h, flags, inv)
    t = FFT()
    c.check(t.output_mode is OutputMode.AMPLITUDE_ONLY and t.orthonormalisation is False, "defaults")
    for bad in (0, 5, 7, 13, -1):
        try:
            t.output_mode = bad
            c.fail("output_mode = %r accepted" % bad)
        except Exception:
            c.check(t.output_mode is OutputMode.AMPLITUDE_ONLY, "rejected output_mode=%r had an effect" % bad)
