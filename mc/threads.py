"""Controlled scheduler for real threads running the code under test.

The code objects of the repository's files are instrumented (sys.monitoring);
at each point (a source line or a bytecode) the thread asks whether the
schedule switches here.
Exactly one thread runs at a time, so a schedule - the number of points each
thread passes before it is preempted - determines the execution.
"""
import sys
import threading
import types

from . import sut

POLL_S = 0.05
TOOL = 4
MON = sys.monitoring
_current = None  # the Run in progress
_mode = None


def _codes():
    """all code objects of the repository's loaded files, the generated document classes aside"""
    seen, out = set(), []

    def code(c):
        if c in seen or not c.co_filename.startswith(sut.SRC):
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                code(k)

    def look(o, depth):
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                look(f, depth)
        while o is not None:
            if isinstance(o, types.FunctionType):
                code(o.__code__)
            o = getattr(o, "__wrapped__", None) if not isinstance(o, type) else None

    def classes(c):
        if c in seen:
            return
        seen.add(c)
        for v in vars(c).values():
            look(v, 0)
            if isinstance(v, type):
                classes(v)

    for m in list(sys.modules.values()):
        name = getattr(m, "__file__", None) or ""
        if name.startswith(sut.SRC) and "renoise_song" not in name:
            for v in list(vars(m).values()):
                if isinstance(v, type):
                    if v.__module__ == m.__name__:
                        classes(v)
                else:
                    look(v, 0)
    return out


def instrument(opcodes):
    global _mode
    if _mode == opcodes:
        return
    E = MON.events
    if _mode is None:
        MON.use_tool_id(TOOL, "schedule")
        MON.register_callback(TOOL, E.LINE, _hit)
        MON.register_callback(TOOL, E.INSTRUCTION, _hit)
    _mode = opcodes
    for c in _codes():
        MON.set_local_events(TOOL, c, E.INSTRUCTION if opcodes else E.LINE)


def plain():
    """no instrumentation"""
    global _mode
    if _mode is not None:
        for c in _codes():
            MON.set_local_events(TOOL, c, 0)
        MON.free_tool_id(TOOL)
        _mode = None


def _hit(code, where):
    r = _current
    if r is not None:
        i = r.idents.get(threading.get_ident())
        if i is not None:
            r.point(i)


class Run:
    """one execution: bodies[0] runs `cuts[0]` points, then bodies[1] `cuts[1]` points, then bodies[0] ..., and after the
    last cut the threads run to their ends in turn"""

    def __init__(self, bodies, cuts, opcodes=False):
        self.bodies, self.cuts = bodies, list(cuts)
        instrument(opcodes)
        self.n = len(bodies)
        self.baton = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * self.n
        self.points = [0] * self.n
        self.left = self.cuts.pop(0) if self.cuts else -1
        self.errors = [None] * self.n
        self.results = [None] * self.n
        self.free = False  # a thread blocked on something of its own: no control any more
        self.finished = threading.Semaphore(0)
        self.switches = 0
        self.idents = {}

    def point(self, i):
        self.points[i] += 1
        if self.left < 0 or self.free:
            return
        if self.left > 0:
            self.left -= 1
            return
        self.left = self.cuts.pop(0) if self.cuts else -1
        self.switch(i)

    def switch(self, i):
        """hand over to the next thread that is not done; come back when the baton returns"""
        for k in range(1, self.n):
            j = (i + k) % self.n
            if not self.done[j]:
                self.switches += 1
                self.baton[j].release()
                seen = None
                while not self.baton[i].acquire(timeout=POLL_S):
                    now = self.progress(j)
                    if now == seen:
                        self.free = True  # the other one waits for us (a lock of its own): let both run
                        return
                    seen = now
                return

    def progress(self, j):
        """changes while thread j runs"""
        try:
            with open(f"/proc/self/task/{self.threads[j].native_id}/stat") as f:
                cpu = f.read().rpartition(")")[2].split()[11:13]
        except OSError:
            cpu = 0
        return self.points[j], self.done[j], cpu

    def thread(self, i):
        self.baton[i].acquire()
        me = threading.get_ident()
        self.idents[me] = i
        try:
            self.results[i] = self.bodies[i]()
        except BaseException as e:  # noqa: reported by the caller
            self.errors[i] = e
        finally:
            self.idents.pop(me, None)
            self.done[i] = True
            for k in range(1, self.n):
                j = (i + k) % self.n
                if not self.done[j]:
                    self.left = self.cuts.pop(0) if self.cuts else -1
                    self.baton[j].release()
                    break
            self.finished.release()

    def go(self):
        global _current
        _current = self
        try:
            return self._go()
        finally:
            _current = None

    def _go(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(self.n)]
        self.threads = ts
        for t in ts:
            t.start()
        self.baton[0].release()
        for _ in ts:
            if not self.finished.acquire(timeout=120):
                raise RuntimeError("the threads did not finish")
        for t in ts:
            t.join()
        for e in self.errors:
            if e is not None:
                raise e
        return self.results


def count_points(body, opcodes=False):
    """number of points a body passes when it runs alone"""
    r = Run([body], [], opcodes)
    r.go()
    return r.points[0]
