"""The life cycle of an algorithm: all operation histories up to a depth, tracked by a small abstract state."""
import itertools

import numpy as np

from .algos import SPECS, agree, named


def alphabet(s, full=True):
    o = [("train", d) for d in (s.data if full else ["A", "B"])] + [("fail", b) for b in s.bad_data] + [("use",), ("reset",), ("init0",)]
    good = list(range(len(s.good)))
    bad = list(range(len(s.bad)))
    if not full:
        seen, g = set(), []
        for i in good:
            if s.good[i][0] not in seen:
                seen.add(s.good[i][0])
                g.append(i)
        good, bad = g, bad[:1]
    return o + [("set", i) for i in good] + [("bad", i) for i in bad]


_CACHE = {}


def fresh_observation(s, params, d):
    """('ok', observation) / ('err', text) of a fresh object with these parameters trained on data set d."""
    key = (s.name, tuple((k, repr(x)) for k, x in params), d)
    if key not in _CACHE:
        try:
            o = s.fresh(params)
            r = s.train(o, s.data[d])
            _CACHE[key] = ("err", r) if r is not None else ("ok", dict(s.observe(o, s.data[d]), **(s.matrices(o) if s.matrices else {})))
        except Exception as e:
            _CACHE[key] = ("err", repr(e))
    return _CACHE[key]


class State:
    """What the history so far implies."""

    def __init__(self):
        self.params = {}          # accepted parameter assignments since construction / re-initialisation
        self.trained = None       # data set of the valid training, if any
        self.clean = True         # nothing was trained (even unsuccessfully) since the last reset
        self.centred = None       # DIPLS only: (data set, params) of the training that fixed its centres

    def key(self):
        return tuple(sorted((k, repr(x)) for k, x in self.params.items())), self.trained

    def plist(self):
        return tuple(sorted(self.params.items()))


def step(s, o, st, op):
    """Performs op on the object and on the abstract state; returns None or a message when the object deviates."""
    if op[0] == "train":
        exp = fresh_observation(s, st.plist(), op[1])
        st.clean = False
        try:
            r = s.train(o, s.data[op[1]])
            ok = r is None
        except Exception as e:
            r, ok = repr(e), False
        if ok != (exp[0] == "ok"):
            return "training on %s %s, a fresh object %s" % (op[1], "succeeds" if ok else "fails (%s)" % r, "succeeds" if exp[0] == "ok" else "fails (%s)" % exp[1])
        st.trained = op[1] if ok else None
        if ok and st.centred is None:
            st.centred = (op[1], st.plist())
        if s.name == "FastICA" and ok:
            clamp(s, o, st, op[1])
    elif op[0] == "fail":
        st.clean = False
        try:
            r = s.train(o, s.bad_data[op[1]])
        except Exception as e:
            r = repr(e)
        st.trained = None
        if r is None:
            return "training on unusable data (%s) was accepted" % op[1]
    elif op[0] == "reset":
        o.reset()
        st.trained, st.clean = None, True
    elif op[0] == "init0":
        o.initialize()
        s.base(o)
        st.__init__()
    elif op[0] == "set":
        k, val = s.good[op[1]]
        if repr(st.params.get(k)) == repr(val):
            return None
        setattr(o, k, val.make())
        st.params[k] = val
        st.trained, st.clean = None, True
    elif op[0] == "bad":
        k, val = s.bad[op[1]]
        before = getattr(o, k)
        try:
            setattr(o, k, val.make())
            return "%s = %r was accepted" % (k, val)
        except Exception:
            if getattr(o, k) != before:
                return "rejected %s = %r was stored" % (k, val)
    elif op[0] == "use":
        try:
            s.observe(o, s.data[st.trained or "A"])
        except Exception:
            pass
    return None


def clamp(s, o, st, d):
    """FastICA documents that it lowers num_components to what the data allow."""
    from .algos import v
    limit = min(s.data[d]["x"].shape)
    cur = st.params.get("num_components")
    cur = cur.make() if cur is not None else 2
    white = st.params.get("whiten")
    new = limit if white is not None and not white.make() else min(cur, limit)
    if new != cur:
        st.params["num_components"] = v(new)
