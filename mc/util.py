"""Small helpers shared by the property modules (deterministic data, comparisons, outcome capture)."""
import numpy as np

from wai.ma.core.matrix import Matrix


def M(a):
    """A Matrix with its own storage."""
    return Matrix(np.array(a, dtype=np.float64, copy=True))


LAYOUTS = ("own", "fortran", "strided", "window", "reversed", "offset")


def ML(a, layout):
    """A Matrix on a particular memory layout of the same contents (always storage nobody else uses)."""
    a = np.array(a, dtype=np.float64, copy=True)
    r, p = a.shape
    if layout == "fortran":
        d = np.asfortranarray(a)
    elif layout == "strided":
        big = np.full((2 * r, 3 * p), 77.0)
        d = big[::2, ::3]
        d[:] = a
    elif layout == "window":
        big = np.full((r + 2, p + 2), 55.0)
        d = big[1:-1, 1:-1]
        d[:] = a
    elif layout == "reversed":
        d = a[::-1, ::-1].copy()[::-1, ::-1]
    elif layout == "offset":
        d = np.full(r * p + 3, 33.0)[3:].reshape(r, p)
        d[:] = a
    else:
        d = a
    return Matrix(d)


def A(m):
    """The contents of a Matrix as an independent array."""
    return np.array(m.data, copy=True)


def table(n, p, seed=0, lo=-9, hi=9):
    """A deterministic n x p table of small integers in generic position (a fixed congruential design)."""
    x = (1103515245 * (seed * 7919 + 12345) + 12345) % (1 << 31)
    out = np.empty((n, p))
    for i in range(n):
        for j in range(p):
            x = (1103515245 * x + 12345) % (1 << 31)
            out[i, j] = lo + (x >> 13) % (hi - lo + 1)
    return out


def generic(n, p, seed=0, scale=1.0, shift=0.0):
    """A deterministic n x p real table in generic position."""
    t = table(n, p, seed) + 0.37 * table(n, p, seed + 101) / 9.0
    return t * scale + shift


def close(a, b, tol=1e-9, scale=None):
    """Same shape, and equal up to tol relative to the largest magnitude; NaN/inf must agree."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not fa.all():
        na, nb = a[~fa], b[~fb]
        if not np.array_equal(na, nb, equal_nan=True):
            return False
        a, b = a[fa], b[fb]
        if a.size == 0:
            return True
    if scale is None:
        scale = max(1e-300, float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= tol * scale)


def eclose(a, b, tol=1e-11):
    """Same shape, and every element equal up to tol relative to itself; NaN/inf must agree."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb) or not np.array_equal(a[~fa], b[~fb], equal_nan=True):
        return False
    a, b = a[fa], b[fb]
    return bool((np.abs(a - b) <= tol * np.abs(b) + 1e-305).all())


def same(a, b):
    """Bit-for-bit equal contents (NaN equal to NaN) and equal shape."""
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def outcome(f, *a, **k):
    """('ok', value) or ('err', exception)."""
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        return 'err', e


def colsign(a, b):
    """b with every column's sign flipped to agree with a where that helps."""
    a = np.asarray(a, float)
    b = np.array(b, float)
    if a.shape != b.shape:
        return b
    for j in range(a.shape[1]):
        if np.dot(a[:, j], b[:, j]) < 0:
            b[:, j] = -b[:, j]
    return b


def digest(*parts):
    """A canonical, rounding-tolerant key of arrays/values."""
    out = []
    for p in parts:
        if isinstance(p, Matrix):
            p = p.data
        if isinstance(p, np.ndarray):
            out.append((p.shape, tuple(float('%.6g' % v) if np.isrealobj(p) else str(v) for v in p.ravel()[:64])))
        else:
            out.append(p)
    return tuple(out)


def show(a, n=12):
    a = np.asarray(a)
    return '%s %s' % (a.shape, np.array2string(a.ravel()[:n], precision=8))
