"""
A controlled scheduler for two real threads executing library code.

Only the thread that holds the baton runs.  Every source line (or bytecode instruction) of the library is a possible
preemption point; a schedule is the set of points at which the running thread hands the baton over.  A thread that
finishes hands it over for good.  With no switch given, the first thread runs to its end, then the second.
"""
import sys
import threading

from .ops import plainly

SRC = "/repo/src/"
PATIENCE = 20


class Stuck(Exception):
    """A thread waits for something only the other, preempted thread can do."""


class Run:
    def __init__(self, functions, switches=(), opcodes=False, record=False):
        self.functions, self.switches, self.opcodes, self.record = functions, set(switches), opcodes, record
        self.baton = [threading.Semaphore(0) for _ in functions]
        self.over = threading.Semaphore(0)
        self.done = [False] * len(functions)
        self.count = [0] * len(functions)
        self.where = [[] for _ in functions]
        self.results = [("lost", None)] * len(functions)
        self.switched = 0
        self.dead = False

    def handover(self, me):
        other = 1 - me
        if self.done[other]:
            return
        self.switched += 1
        self.baton[other].release()
        self.wait(me)

    def wait(self, me):
        if not self.baton[me].acquire(timeout=PATIENCE * 4) or self.dead:
            self.dead = True
            raise SystemExit

    def tracer(self, me):
        kind = "opcode" if self.opcodes else "line"

        def local(frame, event, arg):
            if event == kind or event == "return":
                self.count[me] += 1
                if self.record:
                    self.where[me].append((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti if self.opcodes else 0, event))
                if (me, self.count[me]) in self.switches:
                    self.handover(me)
            return local

        def enter(frame, event, arg):
            if not frame.f_code.co_filename.startswith(SRC):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return enter

    def body(self, me):
        self.wait(me)
        sys.settrace(self.tracer(me))
        try:
            try:
                value = self.functions[me]()
            finally:
                sys.settrace(None)
            self.results[me] = ("ok", plainly(value))
        except SystemExit:
            self.results[me] = ("stuck", None)
        except BaseException as e:
            self.results[me] = ("err", "%s: %s" % (type(e).__name__, str(e)[:200]))
        finally:
            self.done[me] = True
            if not self.done[1 - me]:
                self.baton[1 - me].release()
            else:
                self.over.release()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(2)]
        for t in ts:
            t.start()
        self.baton[0].release()
        if not self.over.acquire(timeout=PATIENCE):
            self.dead = True
            for b in self.baton:
                b.release()
            raise Stuck()
        for t in ts:
            t.join()
        return self.results


WARM = []


def alone(f, opcodes=False):
    """What a single thread observes, and the locations it passes."""
    if opcodes and not WARM:
        # the interpreter only starts to report instructions of code that was traced once before
        WARM.append(1)
        from wai.ma.core.matrix import factory
        for _ in range(3):
            Run([lambda: factory.zeros(2, 2).copy(), lambda: None], opcodes=True, record=True).go()
    r = Run([f, lambda: None], opcodes=opcodes, record=True)
    return r.go()[0], r.where[0]


def points(where, full):
    """The preemption points: every one, the first, second and last time each location is passed, or (None) the first."""
    if full:
        return list(range(1, len(where) + 1))
    if full is None:
        first = {}
        for i, loc in enumerate(where):
            first.setdefault(loc, i + 1)
        return sorted(first.values())
    seen, keep = {}, set()
    for i, loc in enumerate(where):
        seen.setdefault(loc, []).append(i + 1)
    for at in seen.values():
        keep.update(at[:2])
        keep.add(at[-1])
    return sorted(keep)
