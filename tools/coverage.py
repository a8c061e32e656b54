#!/opt/venv/bin/python
"""Lines of the library which no check executes (development aid): tools/coverage.py [C01 ...]"""
import collections
import importlib
import multiprocessing
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
SRC = "/repo/src/wai/ma/"
HITS = set()


def start():
    mon = sys.monitoring
    mon.use_tool_id(3, "cov")

    def line(code, no):
        if code.co_filename.startswith(SRC):
            HITS.add((code.co_filename[len(SRC):], no))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def work(arg):
    from mc import engine
    prop, cases = arg
    mod = importlib.import_module("mc.props." + prop.lower())
    before = set(HITS)
    for case in cases:
        try:
            engine.execute(mod, case, 60)
        except BaseException as e:
            print(prop, case, repr(e)[:100])
    return prop, HITS - before


def executable():
    out = {}
    for root, _, files in os.walk(SRC):
        for f in files:
            if f.endswith(".py"):
                path = os.path.join(root, f)
                todo, lines = [compile(open(path).read(), path, "exec")], set()
                while todo:
                    co = todo.pop()
                    if co.co_flags & 1:      # functions only, class bodies run on import
                        lines |= {l for _, _, l in co.co_lines() if l and l != co.co_firstlineno}
                    todo += [k for k in co.co_consts if hasattr(k, "co_code")]
                out[path[len(SRC):]] = lines
    return out


if __name__ == "__main__":
    props = sys.argv[1:] or ["C%02d" % i for i in range(1, 28)]
    jobs = []
    for p in props:
        cs = list(importlib.import_module("mc.props." + p.lower()).cases("quick"))
        step = max(1, len(cs) // 400)       # a spread of the cases is enough to see which lines run
        cs = cs[::step]
        jobs += [(p, cs[i::16]) for i in range(16) if cs[i::16]]
    hit = collections.defaultdict(set)
    with multiprocessing.get_context("fork").Pool(8, start, maxtasksperchild=None) as pool:
        for p, h in pool.imap_unordered(work, jobs):
            for f, l in h:
                hit[f].add(l)
    for f, lines in sorted(executable().items()):
        miss = sorted(lines - hit[f])
        if miss:
            text = open(SRC + f).read().split("\n")
            print("==", f, len(miss), "of", len(lines))
            for l in miss:
                print("   %4d %s" % (l, text[l - 1].strip()[:110]))
