"""
The explorer.

A property module provides
    META = {"id":..., "bounds":..., "oracle":..., "assumptions":[...]}
    cases(tier)      -> iterable of JSON-able case descriptions (the complete bounded space, in canonical order)
    run_case(case,c) -> executes the case on the real code and on the reference model, reporting to the context c

Every case is executed (nothing is sampled); a case may itself contain a complete inner enumeration.  The only
reasons not to execute a case are the early stop after the first violations (a run that fails anyway) and an
overall wall-clock stop, which is reported as exhaustive=false.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"
CASE_TIMEOUT = 60
MAX_FAILS = 5


class CaseTimeout(BaseException):
    """Raised by the watchdog; not an Exception, so that the code under test can't swallow it easily."""


class Abort(Exception):
    """Ends a case early after an unexpected outcome has been recorded."""


class Ctx:
    """Collects what one case covered and found."""

    def __init__(self):
        self.fails = []
        self.knowns = {}
        self.transitions = 0
        self.traces = 0
        self.guarded = 0
        self.states = set()
        self.samples = []

    # ---- coverage
    def tick(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, text):
        if len(self.samples) < 1:
            self.samples.append(str(text)[:300])

    # ---- outcomes
    def fail(self, msg):
        if len(self.fails) < 3:
            self.fails.append(str(msg)[:2000])

    def known(self, kid, msg=""):
        self.knowns.setdefault(kid, str(msg)[:300])

    def check(self, ok, msg):
        self.transitions += 1
        if not ok:
            self.fail(msg() if callable(msg) else msg)
        return bool(ok)


def load_known(prop):
    """The known findings of a property: {kid: text}."""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                kid = rest.split(" ", 1)[0].split("=", 1)[1]
                res[kid] = rest
    return res


def _alarm(*_):
    raise CaseTimeout()


def execute(mod, case, timeout=CASE_TIMEOUT):
    """Runs one case; anything the harness does not anticipate is a violation with the traceback as the message."""
    import numpy as np
    c = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), \
                contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            mod.run_case(case, c)
    except CaseTimeout:
        c.fail("did not terminate within %d s" % timeout)
    except Abort as e:
        if str(e):
            c.fail(str(e))
    except Exception:
        c.fail("unexpected exception: " + traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
    return c


_MOD = None


def _worker(batch):
    out = []
    for idx, case in batch:
        c = execute(_MOD, case, _MOD.META.get("timeout", CASE_TIMEOUT))
        out.append((idx, c.fails, c.knowns, c.transitions, c.traces, c.guarded, c.states, c.samples))
        if c.fails and len(c.fails[0]) and "did not terminate" in c.fails[0]:
            break
    return out


def assert_provenance():
    import wai.ma
    import wai.ma.algorithm, wai.ma.algorithm.pls, wai.ma.algorithm.glsw, wai.ma.algorithm.ica  # noqa
    import wai.ma.filter, wai.ma.transformation, wai.ma.transformation.kernel  # noqa
    for name, m in list(sys.modules.items()):
        if name.startswith("wai.ma") and getattr(m, "__file__", None):
            if not os.path.realpath(m.__file__).startswith(REPO_SRC + "/"):
                print("ERROR: %s comes from %s" % (name, m.__file__))
                sys.exit(2)


def run(mod, prop, tier, budget=None):
    global _MOD
    _MOD = mod
    t0 = time.time()
    assert_provenance()
    if hasattr(mod, "setup"):
        mod.setup()
    known_file = load_known(prop)
    cases = list(mod.cases(tier))
    workers = int(os.environ.get("MC_WORKERS", "8"))
    fails, knowns, states, samples = [], {}, set(), []
    transitions = traces = guarded = done = 0
    exhaustive = True
    budget = budget or (780 if tier == "thorough" else 600)
    chunk = mod.META.get("chunk") or max(1, min(64, len(cases) // (workers * 8) or 1))
    ctxm = multiprocessing.get_context("fork")
    pool = ctxm.Pool(workers)
    try:
        todo = list(enumerate(cases))
        it = pool.imap_unordered(_worker, [todo[i:i + chunk] for i in range(0, len(todo), chunk)])
        ready = []
        while True:
            try:
                if not ready:
                    ready = it.next(timeout=240)
                idx, f, k, tr, tc, g, st, sa = ready.pop(0)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                fails.append((0, ["the exploration stopped making progress (a worker died or hangs)"]))
                exhaustive = False
                break
            done += 1
            transitions += tr
            traces += tc
            guarded += g
            states |= st
            if len(samples) < 5:
                samples += sa
            for kid, msg in k.items():
                if kid in known_file:
                    knowns.setdefault(kid, (idx, msg))
                else:
                    f = f + ["unlisted finding %s: %s" % (kid, msg)]
            if f:
                fails.append((idx, f))
                if len(fails) >= MAX_FAILS:
                    exhaustive = False
                    break
            if time.time() - t0 > budget:
                exhaustive = False
                break
    finally:
        pool.terminate()
        pool.join()
    fails.sort()
    if fails:
        # prefer a failure that reproduces in a fresh, serial execution
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    violations = []
    for n, (idx, msgs) in enumerate(fails):
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, n))
        with open(path, "w") as fp:
            json.dump({"property": prop, "tier": tier, "case": cases[idx], "messages": msgs}, fp, indent=1)
        violations.append({"case": cases[idx], "messages": msgs, "replay": path})
    wall = time.time() - t0
    meta = getattr(mod, "META", {})
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": max(1, len(states)),
            "transitions": max(1, transitions),
            "traces_validated_against_impl": max(traces, done),
            "exhaustive": exhaustive,
            "cases_skipped": len(cases) - done,
            "guarded_comparisons_skipped": guarded,
            "bounds": meta.get("bounds", ""),
            "oracle": meta.get("oracle", ""),
            "samples": samples[:5] or [str(cases[0])[:300]],
            "known_findings_seen": sorted(knowns),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fp:
        json.dump(evidence, fp, indent=1, default=str)
    for kid in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (prop, known_file[kid]))
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        print("  case: " + json.dumps(v["case"])[:400])
        for m in v["messages"]:
            print("  " + m.replace("\n", "\n  ")[:600])
    print("%s %s: cases=%d/%d states=%d transitions=%d traces=%d guarded=%d exhaustive=%s wall=%.1fs violations=%d"
          % (prop, tier, done, len(cases), len(states), transitions, max(traces, done), guarded, exhaustive, wall,
             len(violations)))
    return 1 if violations else 0
