"""Simulator core: the seam's Python face, forked phases, observation helpers.

A *run* is a scenario (JSON).  It is executed as a sequence of *phases*; each
phase is a forked child of a pristine worker (meshio imported, never used), and
the only thing that survives from one phase to the next is the scratch
directory -- the simulated durable storage.  A phase always ends in ``_exit``:
nothing is flushed, closed or collected on the way out.
"""
import builtins
import contextlib
import ctypes
import errno
import gc
import hashlib
import io
import os
import pickle
import resource
import shutil
import signal
import sys
import traceback

OPN = ["open_r", "open_w", "read", "write", "close_r", "close_w", "trunc", "fsync", "rename", "unlink", "seek", "mkdir", "mmap", "other"]
OP = {n: i for i, n in enumerate(OPN)}
OP["any"] = -1
ACT = {"err": 1, "short": 2, "crash": 3, "crash_after": 4, "torn": 5, "eof": 6}
ERR = {n: getattr(errno, n) for n in ("ENOSPC", "EIO", "EDQUOT", "EACCES", "EMFILE", "ENFILE", "EROFS", "EINTR", "EFBIG", "ENOMEM", "ESTALE", "EPERM")}
CRASH = 137
HANG = 99
OPLIM = 98

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        try:
            _lib.sim_present
        except AttributeError:
            raise SystemExit("simulator seam is not loaded")
        _lib.sim_path.restype = ctypes.c_char_p
        for n in ("sim_fired", "sim_stat", "sim_opcount", "sim_nev", "sim_clock_calls"):
            getattr(_lib, n).restype = ctypes.c_long
        _lib.sim_fault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_char_p]
        _lib.sim_capacity.argtypes = [ctypes.c_long]
        _lib.sim_short.argtypes = [ctypes.c_uint64, ctypes.c_long, ctypes.c_long, ctypes.c_int]
        _lib.sim_limits.argtypes = [ctypes.c_long, ctypes.c_long]
        _lib.sim_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        _lib.sim_event.argtypes = [ctypes.c_long, ctypes.POINTER(ctypes.c_long)]
        _lib.sim_open_handles.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
        _lib.sim_root.argtypes = [ctypes.c_char_p]
    return _lib


EPOCH = 1_600_000_000 * 10**9


def install(root, plan=None):
    """Install a storage/clock plan.  plan = {faults, capacity, crash_at, short, limits, clock}."""
    L = lib()
    plan = plan or {}
    L.sim_reset()
    L.sim_root(os.fsencode(root))
    for f in plan.get("faults", []):
        arg = f.get("arg", 0)
        if f["act"] == "err":
            arg = ERR[f["err"]]
        L.sim_fault(OP[f["op"]], f["nth"], ACT[f["act"]], arg, 1 if f.get("sticky") else 0, os.fsencode(f.get("path", "")))
    if plan.get("capacity") is not None:
        L.sim_capacity(plan["capacity"])
    if plan.get("crash_at") is not None:
        L.sim_crash_at(plan["crash_at"])
    s = plan.get("short")
    if s:
        L.sim_short(s["seed"], s.get("r", 0), s.get("w", 0), s.get("eintr", 0))
    z, o = plan.get("limits", (20000, 3_000_000))
    L.sim_limits(z, o)
    _buffering(L, plan.get("blk", 0))
    c = plan.get("clock", {})
    L.sim_clock(1, EPOCH + int(c.get("offset", 0)), int(c.get("step", 1_000_000)))


_open = builtins.open


def _buffering(L, n):
    """Make the libraries' user-space buffers small, so that a transfer (and with it a fault
    or a crash) can happen at many more points of a call."""
    L.sim_blksize(n)
    if not n:
        builtins.open = io.open = _open
        return

    def opn(*a, **k):
        f = _open(*a, **k)
        if isinstance(f, io.TextIOWrapper) and L.sim_armed():
            f._CHUNK_SIZE = n
        return f

    builtins.open = io.open = opn


@contextlib.contextmanager
def armed():
    L = lib()
    L.sim_arm(1)
    try:
        yield
    finally:
        L.sim_arm(0)


def stats():
    """What the seam did in this phase: operation counts and faults that fired."""
    L = lib()
    st = {"ops": {OPN[i]: L.sim_opcount(i) for i in range(len(OPN)) if L.sim_opcount(i)}}
    fired = {}
    buf = (ctypes.c_long * 6)()
    h = hashlib.blake2b(digest_size=8)
    seq = hashlib.blake2b(digest_size=8)
    wops = 0
    for i in range(L.sim_nev()):
        L.sim_event(i, buf)
        op, pid, ln, ret, inj, er = buf
        nm = L.sim_path(pid)
        h.update(repr((op, nm, ln, ret, inj, er)).encode())
        seq.update(repr((op, inj, er, nm.rsplit(b".", 1)[-1])).encode())
        if inj == 1:
            k = f"{OPN[op]}:{errno.errorcode.get(er, er)}"
            fired[k] = fired.get(k, 0) + 1
        elif inj == 6:
            fired["read:EOF"] = fired.get("read:EOF", 0) + 1
    for k, n in ((0, "short_read"), (1, "short_write"), (3, "enospc")):
        v = L.sim_stat(k)
        if v:
            fired[n] = v
    st["fired"] = fired
    st["total"] = L.sim_stat(5)
    st["digest"] = h.hexdigest()
    st["seq"] = seq.hexdigest()
    st["clock_calls"] = L.sim_clock_calls()
    return st


def events():
    L = lib()
    buf = (ctypes.c_long * 6)()
    out = []
    for i in range(L.sim_nev()):
        L.sim_event(i, buf)
        out.append((OPN[buf[0]], os.fsdecode(L.sim_path(buf[1])), buf[2], buf[3], buf[4], buf[5]))
    return out


def open_handles():
    b = ctypes.create_string_buffer(4096)
    n = lib().sim_open_handles(b, 4096)
    return n, b.value.decode("utf8", "replace")


# ------------------------------------------------------------------- phases
class Phase:
    """Result of one forked phase."""

    __slots__ = ("code", "sig", "value", "harness")

    def __init__(self, code, sig, value, harness):
        self.code, self.sig, self.value, self.harness = code, sig, value, harness

    @property
    def ok(self):
        return self.value is not None

    @property
    def crashed(self):
        return self.code == CRASH

    @property
    def hung(self):
        return self.code in (HANG, OPLIM) or self.sig in (signal.SIGXCPU, signal.SIGKILL, signal.SIGALRM)

    @property
    def died(self):
        """killed by a real signal (segfault inside a library etc.)"""
        return self.sig not in (0, signal.SIGXCPU, signal.SIGKILL, signal.SIGALRM)


class HarnessError(Exception):
    pass


CPU_LIMIT = 40
WALL_LIMIT = 200
_devnull = None


def phase(fn, *args):
    """Run fn(*args) in a forked child; its (picklable) result comes back."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)  # backstop for a phase that is blocked
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            n = os.open("/dev/null", os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(n, fd)
            try:
                val = ("v", fn(*args))
            except BaseException:
                lib().sim_arm(0)
                val = ("e", traceback.format_exc())
            lib().sim_arm(0)
            data = pickle.dumps(val, protocol=5)
            mv = memoryview(data)
            while mv:
                mv = mv[os.write(w, mv):]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
    data = b"".join(chunks)
    val, har = None, None
    if code == 0 and data:
        kind, v = pickle.loads(data)
        if kind == "v":
            val = v
        else:
            har = v
    if har:
        raise HarnessError(har)
    return Phase(code, sig, val, har)


# ----------------------------------------------------------------- scratch
class Scratch:
    """The simulated disk: a directory that is emptied for every run."""

    def __init__(self, base):
        self.base = base
        self.root = os.path.join(base, "disk")
        self.clear()

    def clear(self):
        if os.path.isdir(self.root):
            for dp, dn, fn in os.walk(self.root):
                try:
                    os.chmod(dp, 0o700)
                except OSError:
                    pass
            shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root, exist_ok=True)


def tree(root):
    """{relative path: (kind, bytes, mode)} of everything below root."""
    out = {}
    for dp, dn, fn in os.walk(root):
        dn.sort()
        rel = os.path.relpath(dp, root)
        if rel != ".":
            out[rel + "/"] = ("dir", b"", os.stat(dp).st_mode & 0o777)
        for f in sorted(fn):
            p = os.path.join(dp, f)
            r = f if rel == "." else os.path.join(rel, f)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p).encode(), 0)
            else:
                with open(p, "rb") as fh:
                    out[r] = ("file", fh.read(), os.stat(p).st_mode & 0o777)
    return out


def exc_info(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = ""
    for fr in reversed(tb):
        if "/meshio/" in fr.filename:
            loc = f"{fr.filename.split('/meshio/')[-1]}:{fr.name}"
            break
    s = str(e).strip().splitlines()
    return {"type": type(e).__name__, "msg": (s[0] if s else "")[:160], "loc": loc}


def call(fn, inspect=None):
    """Run fn under the armed seam; ('ok', value) or ('raise', info).  The
    exception object is dropped before returning; *inspect* is called while it,
    and with it every frame that raised, is still alive."""
    L = lib()
    try:
        L.sim_arm(1)
        try:
            v = fn()
        finally:
            L.sim_arm(0)
        return "ok", v
    except BaseException as e:  # noqa: BLE001  (SystemExit and KeyboardInterrupt are outcomes too)
        info = exc_info(e)
        if inspect is not None:
            info["inspect"] = inspect()
        x, seen = e, set()
        while x is not None and id(x) not in seen:  # a chained exception keeps frames alive too
            seen.add(id(x))
            x.__traceback__ = None
            x = x.__context__
        del e, x
    return "raise", info
