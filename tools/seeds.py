"""
Rebuilds /verif/seeded from the descriptions in seed_data.py: applies each change to a scratch copy of /repo, confirms
that the stable tests pass and that the demonstration passes without and fails with it, then writes the folder.
usage: seeds.py [id...]
"""
import difflib
import json
import os
import shutil
import subprocess
import sys

from seed_data import SEEDS

OUT = "/verif/seeded"
WORK = "/tmp/seedwork"
BASE = "479f11b"
DEMO_SH = '#!/bin/bash\ncd "$(pwd)"\nexport OPENBLAS_NUM_THREADS=1\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def tests(root):
    """Stable tests that don't pass in the copy."""
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    work = WORK + "/tests"
    shutil.rmtree(work, ignore_errors=True)
    sh("mkdir -p %s && cp -r %s/resources %s/" % (work, root, work))
    sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell NPY_DISABLE_CPU_FEATURES="X86_V4 AVX512_ICL AVX512_SPR" '
       "PYTHONPATH=%s/src timeout 600 /opt/venv/bin/python /opt/vp/run_tests.py %s %s/lines.txt" % (root, root, work), work)
    passed = {l.split(" ", 1)[1] for l in open(work + "/lines.txt").read().splitlines() if l.startswith("PASS ")}
    shutil.rmtree(work)
    return sorted(set(stable) - passed)


def demo(folder, root):
    return sh("bash %s/demo.sh" % folder, root)


def build(s):
    folder = os.path.join(OUT, s["id"])
    work = os.path.join(WORK, s["id"])
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    sh("cp -a /repo %s" % work)
    sh("git checkout -q -- .", work)
    for file, old, new in s["edits"]:
        p = os.path.join(work, "src/wai/ma", file)
        text = open(p).read()
        n = text.count(old)
        if n != 1:
            shutil.rmtree(work)
            shutil.rmtree(folder, ignore_errors=True)
            return "%s: %d matches of %r" % (file, n, old)
        orig = sh("git show %s:src/wai/ma/%s" % (BASE, file), "/repo").stdout.splitlines()
        new_text = text.replace(old, new)
        open(p, "w").write(new_text)
        removed = [l[1:] for l in difflib.ndiff(text.splitlines(), new_text.splitlines()) if l.startswith("-")]
        if not any(l[1:] in orig for l in removed):
            print("   note: %s changes no line of the original" % file, removed)
    diff = sh("git diff -- src", work).stdout
    os.makedirs(folder, exist_ok=True)
    open(folder + "/patch.diff", "w").write(diff)
    open(folder + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(folder + "/demo.sh", "w").write(DEMO_SH)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(folder + "/meta.json", "w"), indent=1)
    b, t = demo(folder, work), tests(work)
    sh("git checkout -q -- .", work)
    a = demo(folder, work)
    shutil.rmtree(work)
    problems = []
    if a.returncode != 0:
        problems.append("demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-600:])
    if b.returncode == 0:
        problems.append("demo passes with the patch")
    if t:
        problems.append("%d stable tests fail, e.g. %s" % (len(t), t[:3]))
    if problems:
        shutil.rmtree(folder)
    return "; ".join(problems)


if __name__ == "__main__":
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        r = build(s)
        print(s["id"], "OK" if not r else "REJECTED " + r, flush=True)
