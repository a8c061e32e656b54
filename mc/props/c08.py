"""C08: an algorithm is usable exactly while trained with its current parameters."""
import itertools

from ..algos import SPECS
from .. import life

META = {
    "bounds": "18 algorithms/modes; all histories up to depth 3 over the full alphabet (training on 3 data sets of 2 widths, training on unusable data, use, reset, re-initialisation, every accepted and every rejected parameter value), "
              "thorough: also depth 4 over a reduced alphabet; readiness observed at the end of every history",
    "oracle": "an abstract state (parameters, data set of the valid training or none): results are given iff it has a valid training; after a reset no published matrix is left",
    "assumptions": ["parameters are assigned values different from the current one", "PCA and FastICA train on every transform; their readiness is that of their loadings/scores and reconstruction"],
}


def cases(tier):
    for n, s in SPECS.items():
        for full, depth in ([(True, 3), (False, 4)] if tier == "thorough" else [(True, 3)]):
            al = life.alphabet(s, full)
            for first in [None] + al:
                for second in ([None] if first is None else al):
                    yield {"a": n, "full": full, "depth": depth, "first": first, "second": second}


def run_case(case, c):
    s = SPECS[case["a"]]
    c.sample(case)
    al = life.alphabet(s, case["full"])
    if case["first"] is None:
        hists = [()] + [(x,) for x in al]
    else:
        pre = (tuple(case["first"]), tuple(case["second"]))
        hists = [pre + t for n in range(0, case["depth"] - 1) for t in itertools.product(al, repeat=n)]
    for h in hists:
        replay(c, s, h)


def replay(c, s, h):
    o, st = s.make(), life.State()
    for i, op in enumerate(h):
        c.tick()
        msg = life.step(s, o, st, op)
        if msg:
            return c.fail("%s after %s: %s" % (s.name, h[:i + 1], msg))
    ready = st.trained is not None
    if not s.retrains and bool(o.is_initialised()) != ready:
        return c.fail("%s after %s: is_initialised() is %s" % (s.name, h, o.is_initialised()))
    if s.name == "FastICA" and not ready and o.is_initialised():
        return c.fail("%s after %s claims to be initialised" % (s.name, h))
    d = s.data[st.trained or "A"]
    try:
        obs = s.observe(o, d)
        if not ready:
            return c.fail("%s after %s gives results although it is not trained" % (s.name, h))
    except Exception as e:
        if ready:
            return c.fail("%s after %s gives no results although it is trained: %r" % (s.name, h, e))
    if not ready and not s.retrains:
        for f in ("predict", "transform", "transform_response"):
            if hasattr(o, f):
                try:
                    getattr(o, f)(M_(d["new"] if f != "transform_response" else d["newy"]))
                    return c.fail("%s.%s after %s returns a result although it is not trained" % (s.name, f, h))
                except Exception:
                    pass
    if st.clean and s.matrices:
        left = [k for k, m in s.matrices(o).items() if m is not None]
        if left:
            return c.fail("%s after %s still publishes %s" % (s.name, h, left))
    if st.clean and s.name in ("PCA", "FastICA"):
        for k in ("loadings", "scores", "components", "sources", "mixing"):
            if getattr(o, k, None) is not None:
                return c.fail("%s after %s still has %s" % (s.name, h, k))
    c.trace()
    c.state(s.name, st.key(), st.clean)


def M_(a):
    from ..util import M
    return M(a)
