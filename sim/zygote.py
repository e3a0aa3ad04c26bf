"""Processes that differ from the worker in what is fixed at start-up: hash seed and
environment.  One is kept per setting; each request is a phase (a forked child) of it."""
import importlib
import os
import pickle
import struct
import subprocess
import sys

ENV = [{"PYTHONHASHSEED": "1", "TZ": "Asia/Tokyo", "HOME": "/nonexistent", "USER": "alice", "COLUMNS": "200"},
       {"PYTHONHASHSEED": "4242", "TZ": "America/New_York", "LANG": "de_DE.UTF-8", "COLUMNS": "20", "TERM": "xterm-256color"},
       {"PYTHONHASHSEED": "987654321", "TZ": "UTC", "LOGNAME": "bob", "MESHIO_DEBUG": "1"}]
_live = {}


def _send(f, obj):
    d = pickle.dumps(obj, protocol=5)
    f.write(struct.pack("<q", len(d)) + d)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    return pickle.loads(f.read(struct.unpack("<q", h)[0]))


def phase(k, fn, *args):
    """Run fn(*args) in a child of start-up setting k."""
    from . import core

    p = _live.get(k)
    if p is None:
        env = dict(os.environ, **ENV[k])
        p = _live[k] = subprocess.Popen([sys.executable, "-X", "utf8", "-m", "sim.zygote"], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    _send(p.stdin, (fn.__module__, fn.__name__, args))
    r = _recv(p.stdout)
    if r is None:
        raise core.HarnessError(f"zygote {k} ended")
    if r[3]:
        raise core.HarnessError(r[3])
    return core.Phase(*r)


def main():
    from . import core, worker

    i, o = os.fdopen(0, "rb", closefd=False), os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    worker.load_meshio()
    core.lib()
    while True:
        req = _recv(i)
        if req is None:
            return
        mod, name, args = req
        try:
            p = core.phase(getattr(importlib.import_module(mod), name), *args)
            _send(o, (p.code, p.sig, p.value, None))
        except core.HarnessError as e:
            _send(o, (0, 0, None, str(e)))


if __name__ == "__main__":
    main()
