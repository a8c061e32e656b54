"""The fixed data designs the numerical checks enumerate."""
import numpy as np

from .util import generic, table


def with_col(a, j, v):
    a = np.array(a)
    a[:, j] = v
    return a


def plain():
    """name -> table; columns in generic position unless the name says otherwise."""
    d = {
        "g63": generic(6, 3, 1),
        "g25": generic(2, 5, 2),
        "g51": generic(5, 1, 3),
        "g49": generic(4, 9, 4),
        "g304": generic(30, 4, 5),
        "g1202": generic(120, 2, 6),
        "g740": generic(7, 40, 7),
        "shift": generic(6, 3, 8) + np.array([1000.0, -500.0, 0.25]),
        "scales": generic(6, 4, 9) * np.array([1e-9, 1e-3, 1e3, 1e9]),
        "tinyall": generic(5, 3, 10, 1e-9),
        "hugeall": generic(5, 3, 11, 1e9),
        "dup": np.repeat(generic(6, 2, 12), 2, axis=1),
        "ties": table(8, 3, 13, 0, 2),
        "neg": -np.abs(generic(6, 3, 14)) - 1,
        "pos": np.abs(generic(7, 3, 15)) + 0.5,
        "duprows": np.repeat(generic(3, 3, 16), 2, axis=0),
    }
    for j in range(3):
        d["const%d" % j] = with_col(generic(6, 3, 17), j, 4.0)
    d["const01"] = with_col(generic(3, 3, 18), 1, 0.1)
    d["const07"] = with_col(generic(7, 3, 19), 2, 0.7)
    d["const123"] = with_col(generic(10, 2, 20), 0, 123.456)
    d["const0"] = with_col(generic(4, 3, 21), 0, 0.0)
    d["constlast2"] = with_col(with_col(generic(5, 4, 22), 2, -3.0), 3, 8.0)
    d["allconst"] = np.full((4, 3), 2.5)
    d["near"] = np.array([[1.0, 5.0], [1.0 + 1e-6, 6.0], [1.0 - 2e-6, 9.0], [1.0, 3.0]])
    return d


def regress(n, p, q, variant, seed=0):
    """Predictors, responses and new rows of a named kind."""
    x = generic(n, p, seed + 1) / 3 + np.arange(p)
    b = generic(p, q, seed + 31) / 5
    new = generic(4, p, seed + 5) / 3 + np.arange(p)
    e = generic(n, q, seed + 77) / 4
    y = x @ b + e + 2
    if variant == "shift":
        x[:, 0] += 300
        new[:, 0] += 300
        y = y - 500
    elif variant == "scales":
        s = 10.0 ** (np.arange(p) % 5 - 2)
        x, new = x * s, new * s
        y = y * 10.0 ** (2 * np.arange(q) - 1)
    elif variant == "tiny":
        x, new, y = x * 1e-5, new * 1e-5, y * 1e-4
    elif variant == "huge":
        x, new, y = x * 1e5, new * 1e5, y * 1e4
    elif variant == "const":
        x[:, p // 2] = 3.7
        new[:, p // 2] = 3.7
    elif variant == "dup":
        x[:, -1] = x[:, 0]
        new[:, -1] = new[:, 0]
    elif variant == "exact":
        y = x @ b + 2
    elif variant == "ints":
        x, new = table(n, p, seed + 3, -3, 3), table(4, p, seed + 4, -3, 3)
        y = table(n, q, seed + 9, -5, 5)
    elif variant == "noise":
        y = e
    elif variant == "neg":
        x, new, y = -np.abs(x) - 1, -np.abs(new) - 1, -np.abs(y)
    elif variant == "ycols":
        # a response which doesn't vary and one which repeats another
        y[:, 0] = 1.3
        if q > 2:
            y[:, 2] = y[:, 1]
    return x, y, new


VARIANTS = ["plain", "shift", "scales", "tiny", "huge", "const", "dup", "exact", "ints", "noise", "neg"]
