"""Writes /verif/DESIGN.md from the hand-written parts below, the checks' own descriptions, the planted bugs and the last evidence."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

INTRO = """# Design

*Generated by tools/gen_design.py; the per-property text comes from the checks themselves (META in mc/props).*

## Method

py-matrix-algorithms is a sequential numerical library: matrices with cached decompositions, transformations with a configuration
life cycle, trained algorithms, and text/binary input and output.  Model checking is applied as *stateless exhaustive exploration
of the real code*.  For each property a finite, explicitly stated space of executions is enumerated completely:

* **histories** (C02-C04, C08-C10, C20, C26): all sequences of operations up to a depth over a stated alphabet, run on the real
  objects next to an abstract state (two or three fields: contents, parameters, what was learned from what).  Each observation is
  compared with what the abstract state demands, for the life-cycle properties the answer of a fresh object brought directly into that state.
* **configurations and inputs** (C01, C05-C07, C11-C19, C21-C24, C27): all members of a bounded space (every shape, setting and
  named data design; all small lists, tables, strings), compared with a reference model written from the definition (plain Python,
  fractions or numpy, mc/refs.py and the modules themselves), never with the implementation.
* **interleavings** (C25): two real threads under a controlled scheduler (mc/sched.py, line-level switch points through
  sys.settrace); all placements of preemptions up to the bound are enumerated.
* **faults**: unreadable cells, unusable training data, rejected parameters, existing or missing directories are part of the alphabets.

Nothing is sampled and no check uses randomness (data come from a fixed integer recurrence, util.generic); `VERIF_SEED` is
ignored on purpose.  A check fails if anything differs, if an unexpected exception appears or if a case doesn't
terminate within its time limit.  `run.sh` pins one BLAS thread and a fixed kernel so that results are reproducible between machines;
the modules under test are imported from /repo/src (verified at start-up), so no build is involved and each run sees the current tree.

There is no separate model to keep bound to the code: every explored trace is a trace of the implementation.  "traces" in the
evidence counts them; "states" counts distinct abstract states; "transitions" counts operations/comparisons; "guarded" counts comparisons that were skipped under
the assumptions listed with the property.

### Comparing floating point

Where the definition is exact (selection, text, serialisation, sorting, histories against fresh objects) equality is exact.  Elsewhere
the tolerance is tied to the conditioning of the case: the reference is evaluated again on inputs moved by about 1e-9 and on reordered
rows/other units, and the deviation allowed is a small multiple of what that changes (`Judge` in c12.py and its relatives).  Cases whose own
reference moves too much are counted as guarded, never judged.  That keeps reorderings of the arithmetic (a refactoring) quiet and
still exposes wrong formulas, since those deviate by whole units on most designs.

### Known findings

A defect which was recorded instead of repaired is accepted only in its exact present form: each such check evaluates both the
documented definition and an exact model of the recorded behaviour; anything matching neither is a violation, and matching the
documented one is fine too (so a repair doesn't alarm).

### What the family can't reach

No property had to be given up (`not_applicable` is empty).  The limit is the bound: a defect that needs a larger matrix, longer history, another
parameter value, or more preemptions than enumerated stays unseen.  Real arithmetic is sampled by designs: "all designs of the listed kinds",
not "all real matrices".
"""

WHY = {
    "C01": "tests compare a few 2x2/3x3 products; shape mixing (row vector against column vector, 1x1, strips), special values and every scalar type are combinations",
    "C02": "an index error shows only at particular cells, shapes, storage layouts or after particular updates; all single updates of all small shapes are tried in each layout",
    "C03": "sharing shows only when a second operation follows the first, for the right pair of operations and storage layout",
    "C04": "a stale cache needs a query, an in-place change and another query in the right order; degenerate spectra need constructed matrices",
    "C05": "orders and ties that break a partition step are rare among lists; the adversary builds the worst order from the code's own comparisons",
    "C06": "parsing faults need particular cell contents at particular positions and setting combinations",
    "C07": "byte boundaries, encodings and leftovers of earlier serialisations",
    "C08": "life-cycle faults need a particular history of trainings, failures, parameter changes and resets",
    "C09": "state left over from an earlier use needs two different uses of one object",
    "C10": "aliasing needs a change after the call, of the right matrix",
    "C11": "row coupling needs particular batch sizes, orders or duplicates",
    "C12": "formula faults show only for particular counts of components, responses, shapes (n<p), weights or modes",
    "C13": "statistics mix-ups show only with responses of different units or batches different from the training data",
    "C14": "component counts depend on shares of variance, limits, constant columns and rank",
    "C15": "each mode, contrast, whitening and number of components takes another path, iterates must agree step by step",
    "C16": "weights and spans depend on rank, alpha, N and the pairing of eigenvalues",
    "C17": "regularisation and projections depend on shapes and on both lambdas independently",
    "C18": "each transformation has degenerate columns, bounds and settings that meet only in combination",
    "C19": "the inverse must use the right settings and statistics for every one of them",
    "C20": "which statistics are used depends on the whole history",
    "C21": "weights for every order/derivative/window combination against exact rational arithmetic",
    "C22": "grids and starts interact with width modulo step",
    "C23": "entries depend on parameters, their defaults per width, and earlier use",
    "C24": "odd/even length, pure frequencies, modes and row counts",
    "C25": "a shared scratch variable shows in few interleavings only",
    "C26": "leaks of global state and dependence on history need a history",
    "C27": "adaptation modes, penalties, thresholds and weights of less used algorithms",
}

CONVENTIONS = """## Conventions found in the code and taken as its definition

Where documentation is silent and several readings are defensible, the present behaviour is the definition used by the oracle:

* `norm2` of a matrix that isn't a vector is the Frobenius norm over sqrt(min(rows, columns)); a 1x1 matrix counts as a row vector.
* Savitzky-Golay returns the Taylor coefficient (derivative over its factorial); a window of one point is the identity.
* GLSW weights are sqrt(lambda^2/alpha + 1) with lambda the eigenvalues of the covariance of the differences.
* FastICA may lower `num_components`; PCA, FastICA and RowNorm train/configure anew on each transform (so they can't be shared between threads, C25).
* `PassThrough` and an empty `MultiFilter` return their argument itself; accessors return the learned matrices themselves, which belong to the object (stated in C10).
* RowNorm has no true inverse (its `inverse_transform` isn't claimed). CCARegression always deflates canonically; NIPALS always standardises.
* KernelPLS `P` isn't checked (it is computed from the deflated kernel and vanishes up to rounding).
* Semi-supervised DIPLS scales the target covariance by the number of labelled target rows less one.
* VCPLS weights are the dominant generalised eigenvector with a ridge of 1e-7, and least squares at lambda = 0. PRM uses the weighted response in its residual update.
  `SparsePLS.transform` isn't judged in C27 (its batch dependence is a finding of C11).
* `MSC.prefilter` and `helper.row_norms`/`euclidean_distance` (not implemented) are out of scope.
* Single-response algorithms answer with an error string for more than one response. FastICA without whitening needs at least as many rows as columns.
* Noninteger degrees of the polynomial kernel are judged only where the base is positive.

## False alarms met and corrected during development

* C25: case timeouts under load counted as violations (the limit was raised and schedules split into smaller cases); RowNorm shared between threads
  (it configures itself on each call, the property now says so).
* C12/C13/C27: designs at the edge of breakdown of a component (guard by perturbation added); NIPALS with two rows and a constant first response, first taken for such a design,
  turned out to be a genuine defect (fixed).
* C13: behaviour-preserving rewrites of PCA, Standardize, NIPALS and PLS1 (tried in a scratch run) flipped the direction of VCPLS components and last bits of degenerate designs;
  the check compares VCPLS up to component directions and calibrates rounding with five perturbed models.
* C15: iterates of nearly coincident singular values (guard by the gap); C16: eigenvalues tied exactly (judged as spans instead of vectors).
* Machine-dependent last bits (AVX512 against AVX2 kernels): run.sh pins the kernel, exact comparisons are used only between results of the same kind of call.
"""


def main():
    out = [INTRO]
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    caught = {}
    log = "/tmp/catch.log"
    store = os.path.join(V, "tools", "catch.json")
    if os.path.exists(store):
        caught = json.load(open(store))
    if os.path.exists(log):
        for l in open(log):
            w = l.split()
            if len(w) > 3 and w[2].startswith("rc="):
                caught[w[0]] = [w[1], w[2] == "rc=1"]
    seeds = {}
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        seeds[os.path.basename(os.path.dirname(f))] = json.load(open(f))
    caught = {k: v for k, v in caught.items() if k in seeds}
    json.dump(caught, open(store, "w"), indent=0, sort_keys=True)
    out.append("## Properties\n")
    for p in props:
        m = importlib.import_module("mc.props." + p["id"].lower()).META
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("* **Enumerated** (%s): %s" % ("model checking on the real code", m["bounds"]))
        out.append("* **Oracle**: %s" % m["oracle"])
        if m.get("assumptions"):
            out.append("* **Assumptions**: %s" % "; ".join(m["assumptions"]))
        out.append("* **Why tests can't settle it**: %s" % WHY[p["id"]])
        try:
            e = json.load(open(os.path.join(V, "tools", "cost.json")))[p["id"]]
            out.append("* **Cost** (8 cores): " + "; ".join("%s %s" % (t, e[t]) for t in ("quick", "thorough") if t in e))
        except (OSError, KeyError):
            pass
        mine = [s for s, d in seeds.items() if d["property"] == p["id"]]
        if mine:
            out.append("* **Planted bugs**: " + ", ".join("%s (%s)" % (s, "caught" if caught.get(s, [0, 0])[1] else "missed" if s in caught else "not run") for s in mine))
        out.append("")
    out.append(CONVENTIONS)
    out.append("## Findings on the original code\n\nKNOWN-FINDING lines are recorded defects, `fixed:` lines are repaired by the commit named (all in KNOWN_FINDINGS.txt):\n")
    for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        if l.strip():
            out.append("* " + l.strip())
    out.append("\n## Planted bugs\n\n| id | what it breaks | needs | check that reports it |\n|---|---|---|---|")
    for s, d in seeds.items():
        out.append("| %s | %s | %s | %s |" % (s, d["what_it_breaks"], d["needs"], caught[s][0] if caught.get(s, [0, 0])[1] else "none yet" if s in caught else "not run"))
    out.append("""
## Files

* `run.sh ID quick|thorough`: one check; `replay.sh FILE`: runs the recorded case of a violation again; `setup.sh`: nothing to build, verifies the interpreter.
* `mc/engine.py`: exploration, accounting, evidence, known findings; `mc/props/cNN.py`: one module per property; `mc/refs.py`: reference implementations;
  `mc/designs.py`: data designs; `mc/algos.py`: the algorithms with their parameters; `mc/ops.py`: matrix operations; `mc/life.py`, `mc/sched.py`: life-cycle and thread exploration.
* `tools/`: generators of the committed files, `coverage.py` (lines of the library no check executes; what is left are abstract stubs and error texts), `seeds.py`/`seed_data.py` (planted bugs).
""")
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))


main()
