"""Interruption of meshio's own code at a chosen statement.

The line events (sys.settrace) of code under meshio/ are the steps; before the
k-th one the chosen exception (KeyboardInterrupt as from a signal handler,
MemoryError as from a failed allocation) is raised out of that statement.
"""
import linecache
import os
import sys

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def prefix():
    import meshio

    return os.path.dirname(meshio.__file__) + os.sep


def is_with(fn, no):
    """The line event of a 'with' statement is also the one of its exit, where CPython
    (with a trace function) loses the exception state: the interrupt waits for the next one."""
    return linecache.getline(fn, no).lstrip().startswith("with ")


class Lines:
    """Counts meshio statements executed between start() and stop(); raises
    *exc* before the *at*-th one (1-based); ends the process beyond *budget*."""

    def __init__(self, at=None, exc="KeyboardInterrupt", budget=None):
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = None
        self.budget = budget

    def start(self):
        pre = prefix()
        at, budget = self.at, self.budget

        def local(frame, event, arg):
            if event == "line":
                self.n += 1
                if at and self.n >= at and not self.fired and not is_with(frame.f_code.co_filename, frame.f_lineno):
                    self.fired = f"{frame.f_code.co_filename[len(pre):]}:{frame.f_code.co_name}"
                    raise EXC[self.exc]()
                if budget and self.n > budget:
                    os._exit(99)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(pre):
                return local
            return None

        sys.settrace(tracer)
        return self

    def stop(self):
        sys.settrace(None)

    def __enter__(self):
        return self.start()

    def __exit__(self, *_):
        self.stop()
