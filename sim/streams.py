"""Streams handed to meshio by the caller, under the simulator's control.

``make_reader``/``make_writer`` build a buffered stream over a raw one that
delivers (accepts) the data in seeded pieces and can fail at a chosen
operation.  Closing is recorded: a stream the caller owns must stay open.
"""
import io
import random

# which kinds of streams each configuration takes: b(inary) or t(ext)
WRITE = {"vtk42-bin": "b", "vtk51-bin": "b", "vtk42-asc": "b", "vtk51-asc": "b", "ansys-bin": "b", "ansys-asc": "b", "flac3d-bin": "b", "flac3d-asc": "t", "ply-bin": "b", "ply-asc": "b",
         "stl-bin": "b", "stl-asc": "t", "mdpa": "b", "neuroglancer": "b", "su2": "b", "svg": "b", "abaqus": "t", "avsucd": "t", "nastran-free-fixed-small": "t",
         "nastran-fixed-small-fixed-small": "t", "nastran-fixed-large-fixed-small": "t", "netgen": "t", "obj": "t", "permas": "t", "tecplot": "t", "wkt": "t", "medit-asc": "b"}
READ = {"xdmf-XML": "b", "ply-bin": "b", "ply-asc": "b", "ansys-asc": "b", "neuroglancer": "b", "flac3d-bin": "b", "flac3d-asc": "t", "abaqus": "t", "avsucd": "t", "nastran-free-fixed-small": "t",
        "nastran-fixed-small-fixed-small": "t", "nastran-fixed-large-fixed-small": "t", "netgen": "t", "obj": "t", "permas": "t", "tecplot": "t", "wkt": "t"}
READ.update({f"foreign-{n}": "b" if n in ("ply", "ansys") else "t" for n in ("ply", "ansys", "abaqus", "nastran", "netgen", "obj", "permas", "tecplot", "wkt", "avsucd", "flac3d")})
# through the HDF5 library's file-object driver: binary, seekable
HDF = {"hmf": "b", "hmf-gz": "b", "cgns": "b", "cgns-gz": "b", "h5m": "b", "h5m-gz": "b", "med": "b"}
# readers built on numpy.fromfile take real files only
READ_FILE = {"ansys-bin": "b", "mdpa": "b", "off": "t", "su2": "t", "medit-asc": "t", "ugrid-ascii": "t"}


class Raw(io.RawIOBase):
    def __init__(self, data=b"", piece=0, seed=0, fail_at=None, err=5, seekable=True):
        self.buf = bytearray(data)
        self.pos = 0
        self.piece = piece
        self.rng = random.Random(seed)
        self.n = 0
        self.fail_at = fail_at
        self.err = err
        self.failed = 0
        self._seekable = seekable
        self.pieces = 0

    def _op(self):
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.failed += 1
            raise OSError(self.err, "simulated stream failure")

    def _len(self, n):
        if self.piece and n > 1:
            k = self.rng.randint(1, max(1, min(n, self.piece)))
            if k < n:
                self.pieces += 1
            return k
        return n

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return self._seekable

    def seek(self, off, whence=0):
        if not self._seekable:
            raise io.UnsupportedOperation("seek")
        base = {0: 0, 1: self.pos, 2: len(self.buf)}[whence]
        self.pos = base + off
        return self.pos

    def tell(self):
        if not self._seekable:
            raise io.UnsupportedOperation("tell")
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if size < len(self.buf):
            del self.buf[size:]
        else:
            self.buf.extend(b"\0" * (size - len(self.buf)))
        return size

    def readinto(self, b):
        self._op()
        n = self._len(min(len(b), max(0, len(self.buf) - self.pos)))
        b[:n] = self.buf[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        self._op()
        b = bytes(b)
        n = self._len(len(b))
        if self.pos > len(self.buf):
            self.buf.extend(b"\0" * (self.pos - len(self.buf)))
        self.buf[self.pos:self.pos + n] = b[:n]
        self.pos += n
        return n


class Pieces(io.StringIO):
    """A text stream whose read(n) delivers as many characters as it likes."""
    def __init__(self, text, piece, seed):
        super().__init__(text)
        self.piece = piece
        self.rng = random.Random(seed)

    def read(self, n=-1):
        if n is not None and n > 1 and self.piece:
            n = self.rng.randint(1, min(n, self.piece))
        return super().read(n)


def make_reader(kind, data, piece=0, seed=0, fail_at=None, bufsize=64, plain=False):
    if plain:
        return None, io.BytesIO(data) if kind == "b" else Pieces(data.decode(), piece, seed)
    raw = Raw(data, piece, seed, fail_at)
    st = io.BufferedRandom(raw, max(bufsize, 8))
    if kind == "t":
        st = io.TextIOWrapper(st, encoding="utf8", newline=None, write_through=False)
    return raw, st


def make_writer(kind, piece=0, seed=0, fail_at=None, bufsize=64, plain=False):
    if plain:
        return None, io.BytesIO() if kind == "b" else io.StringIO()
    raw = Raw(b"", piece, seed, fail_at)
    st = io.BufferedRandom(raw, max(bufsize, 8))
    if kind == "t":
        st = io.TextIOWrapper(st, encoding="utf8", newline="\n", write_through=False)
    return raw, st


def content(raw, st):
    """What the stream holds (after the caller's own flush)."""
    if raw is not None:
        st.flush()
        return bytes(raw.buf)
    v = st.getvalue()
    return v if isinstance(v, bytes) else v.encode()
