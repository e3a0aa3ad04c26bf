"""Deterministic threads.

Real threads, but only the one holding the baton runs; the baton can change
hands before any statement of meshio (line events).  The schedule -- the list of
(step, next thread) -- is data, so a schedule is one exactly repeatable execution.
"""
import os
import sys
import threading

from . import interrupt


def _phil():
    try:
        from h5py._objects import phil

        return phil._is_owned if hasattr(phil, "_is_owned") else None
    except Exception:
        return None


class Sched:
    def __init__(self, fns, switches, limit=3_000_000):
        self.fns = fns
        self.sw = sorted(switches)  # [[step, choice], ...]
        self.pos = 0
        self.step = 0
        self.limit = limit
        self.locks = [threading.Lock() for _ in fns]
        for x in self.locks:
            x.acquire()
        self.live = set(range(len(fns)))
        self.main = threading.Lock()
        self.main.acquire()
        self.results = [None] * len(fns)
        self.trace = []
        self.lines = [0] * len(fns)
        self.owned = _phil()

    def _tracer(self, tid):
        pre = interrupt.prefix()

        def local(frame, event, arg):
            if event == "line":
                self.point(tid, frame)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(pre):
                return local
            return None

        return tracer

    def point(self, tid, frame):
        self.step += 1
        self.lines[tid] += 1
        if self.step > self.limit:
            os._exit(99)
        if self.pos >= len(self.sw) or self.step < self.sw[self.pos][0]:
            return
        if self.owned is not None and self.owned():
            return  # the HDF5 library lock is held: nobody else could run
        f = frame.f_back
        while f is not None:  # nor while a module is being imported (its import lock is held)
            if f.f_code.co_filename.startswith("<frozen importlib"):
                return
            f = f.f_back
        _, choice = self.sw[self.pos]
        self.pos += 1
        others = sorted(self.live - {tid})
        if not others:
            return
        nxt = others[choice % len(others)]
        self.trace.append((tid, nxt, frame.f_code.co_name, frame.f_lineno))
        self.locks[nxt].release()
        self.locks[tid].acquire()

    def _run(self, tid):
        self.locks[tid].acquire()
        sys.settrace(self._tracer(tid))
        try:
            self.results[tid] = self.fns[tid]()
        finally:
            sys.settrace(None)
            self.live.discard(tid)
            if self.live:
                self.locks[sorted(self.live)[0]].release()
            else:
                self.main.release()

    def run(self):
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        self.locks[0].release()
        self.main.acquire()
        for t in ts:
            t.join()
        return self.results
