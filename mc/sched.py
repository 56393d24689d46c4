"""A controlled scheduler for real threads: every line (or every bytecode) of the package is a scheduling point.

Each thread is instrumented through sys.monitoring and stops at the scheduling point where its budget runs out; a schedule
is a list of (thread, steps) segments, after which the threads run to completion in the order given.  A thread that
does not come back (it waits for a lock held by a stopped thread) is set aside and the next segment runs; it is waited
for at the end, so real locks in the package work.
"""
import gc
import os
import sys
import threading
import time
import types

MON = sys.monitoring
TOOL = 4
STEP = {}       # thread -> what to do at a scheduling point
_mode = None


def _codes(root):
    """All code objects of functions defined under root, nested ones included."""
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)
            and f.__code__.co_filename.startswith(root)]
    seen = {}
    while todo:
        c = todo.pop()
        if id(c) not in seen:  # (equal code objects of different functions are different places)
            seen[id(c)] = c
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return list(seen.values())


def _instrument(root, opcodes):
    """Every executed line (or bytecode) of code under root calls STEP of its thread; other code is left alone."""
    global _mode
    if _mode == (root, opcodes, os.getpid()):
        return
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "scheduler")
    ident = threading.get_ident

    def hit(code, where):
        f = STEP.get(ident())
        if f is not None:
            f(code.co_filename, code.co_qualname, id(code), where)

    for ev in (MON.events.LINE, MON.events.INSTRUCTION):
        MON.register_callback(TOOL, ev, hit)
    for code in _codes(root):
        MON.set_local_events(TOOL, code, MON.events.INSTRUCTION if opcodes else MON.events.LINE)
    _mode = (root, opcodes, os.getpid())


class Runner:
    def __init__(self, root, opcodes=False, patience=0.15, limit=30.0, freeze=None):
        self.freeze = freeze   # makes a private record of a value at the moment the call returns it
        self.root, self.opcodes, self.patience, self.limit = root, opcodes, patience, limit
        self.trail = None

    def run(self, fns, plan):
        """Returns (results, steps): results[i] is ("ok", value[, record]), ("raised", exc) or ("stuck", None)."""
        n = len(fns)
        go = [threading.Semaphore(0) for _ in range(n)]
        back = threading.Semaphore(0)
        budget, steps, result = [0] * n, [0] * n, [None] * n
        waiting = [True] * n   # stopped at a scheduling point (or not started)
        _instrument(self.root, self.opcodes)

        def body(i):
            go[i].acquire()

            def step(*where):
                if self.trail is not None:
                    self.trail.append(where)
                if budget[i] == 0:
                    waiting[i] = True
                    back.release()
                    go[i].acquire()
                budget[i] -= 1
                steps[i] += 1

            STEP[threading.get_ident()] = step
            try:
                v = fns[i]()
                r = ("ok", v) if self.freeze is None else ("ok", v, self.freeze(v))
            except BaseException as e:
                r = ("raised", e)
            finally:
                STEP.pop(threading.get_ident(), None)
            result[i] = r
            back.release()

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        end = time.monotonic() + self.limit
        late = 0   # segments whose end has not been collected

        def segment(i, k):
            nonlocal late
            if result[i] is not None or not waiting[i]:
                return
            waiting[i] = False
            budget[i] = k
            go[i].release()
            while True:
                if not back.acquire(timeout=self.patience):
                    late += 1
                    return
                if waiting[i] or result[i] is not None:
                    return
                late -= 1   # an earlier blocked thread came back instead

        for i, k in plan:
            if k:
                segment(i, k)
        while any(r is None for r in result) and time.monotonic() < end:
            moved = False
            for i in [p[0] for p in plan] + list(range(n)):
                if result[i] is None and waiting[i]:
                    segment(i, 1 << 60)
                    moved = True
            if not moved:
                back.acquire(timeout=0.01)
        return [r if r is not None else ("stuck", None) for r in result], steps
