"""A simulated disk for the data files of bfit.

Reads go through Python's own BufferedReader/TextIOWrapper on top of `SimRaw`, so that a fault at
the level of one read(2) call meets the genuine buffering and decoding code.
"""
import errno
import io
import os
import stat
import tarfile

from .seams import DATA, SIM, Real


def _real(path):
    return os.path.realpath(os.fsdecode(path))


class ReadBudget(BaseException):
    """The code under test keeps reading although the file has ended."""


def load_tar():
    """Contents of data.tar as {path under bfit/data: bytes}."""
    out = {}
    path = os.path.join(DATA, "data.tar")
    try:
        with tarfile.open(path) as tar:
            for member in tar.getmembers():
                if not member.isfile():
                    continue
                parts = member.name.split("/")
                for sub in ("neutral", "anion", "cation"):
                    if sub in parts:
                        name = "/".join(parts[parts.index(sub):])
                        out[name] = tar.extractfile(member).read()
    except (OSError, tarfile.TarError):
        pass
    return out


class SimRaw(io.RawIOBase):
    """One open file on the simulated disk."""

    def __init__(self, fs, name, data, script):
        super().__init__()
        self.fs, self.name, self.data, self.script = fs, name, data, script
        self.pos = 0
        self.nread = 0
        self.eofs = 0
        self.fd = None
        fs.opened += 1

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        if whence == 0:
            self.pos = offset
        elif whence == 1:
            self.pos += offset
        else:
            self.pos = len(self.data) + offset
        return self.pos

    def tell(self):
        return self.pos

    def fileno(self):
        """A genuine descriptor of the contents, for whoever wants to map or stat the file."""
        if self.fd is None:
            self.fd = Real.os_memfd_create("simulated")
            os.write(self.fd, self.data)
            Real.os_lseek(self.fd, 0, 0)
            self.fs.fds[self.fd] = self
        return self.fd

    def readinto(self, buf):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.nread += 1
        self.fs.reads += 1
        if SIM.sched is not None and SIM.sched.managed():
            SIM.sched.point()
        SIM.clock.advance(self.fs.latency)
        action = self.script.get(self.nread)
        if action == "eintr":
            SIM.fired("io.eintr")
            raise InterruptedError(errno.EINTR, "Interrupted system call")
        if action in ("eio", "estale", "enomem"):
            SIM.fired("io." + action)
            self.fs.hard += 1
            code = {"eio": errno.EIO, "estale": errno.ESTALE, "enomem": errno.ENOMEM}[action]
            raise OSError(code, os.strerror(code), self.name)
        left = self.data[self.pos:]
        size = min(len(buf), len(left))
        if size and self.script.get("chunk"):
            chunk = self.script["chunk"]
            limit = chunk[(self.nread - 1) % len(chunk)]
            if limit < size:
                SIM.fired("io.short_read")
                size = limit
        if size == 0:
            self.eofs += 1
            if self.eofs > self.fs.eof_limit:
                raise ReadBudget(f"{self.name}: {self.eofs} reads after the end of the file")
        buf[:size] = left[:size]
        self.pos += size
        return size

    def close(self):
        if not self.closed:
            self.fs.closed += 1
            if self.fd is not None:
                self.fs.fds.pop(self.fd, None)
                Real.os_close(self.fd)
        super().close()


class SimFS:
    """Simulated disk: real contents, except where the scenario damaged them.

    `faults` maps the ordinal of the open call ("1", "2", ... or "*") to a script:
    {"cut": byte, "flip": [[byte, value]..], "hole": [start, end], "open": errno name,
     "chunk": [sizes], "<n>": action at the n-th read}.
    """

    def __init__(self, faults=None, latency=0.0, tar=None, eof_limit=400):
        self.faults = faults or {}
        self.latency = latency
        self.tar = tar or {}
        self.eof_limit = eof_limit
        self.nopen = 0
        self.opened = self.closed = self.reads = 0
        self.writes = 0
        self.hard = 0                    # errors the disk has raised
        self.names = []
        self.sizes = {}
        self.fds = {}                    # descriptor -> open file

    @staticmethod
    def owns(file):
        if not isinstance(file, (str, bytes, os.PathLike)):
            return False
        return _real(file).startswith(DATA + os.sep)

    def content(self, path):
        rel = os.path.relpath(_real(path), DATA)
        try:
            with Real.open(path, "rb") as handle:
                return handle.read()
        except FileNotFoundError:
            if rel in self.tar:
                return self.tar[rel]
            raise

    def script(self, n):
        script = self.faults.get(str(n), self.faults.get("*", {}))
        return {(int(k) if k.lstrip("-").isdigit() else k): v for k, v in script.items()}

    def raw(self, file, mode="r"):
        """Open a file: the unbuffered stream, and what is scripted for it."""
        path = os.fsdecode(file)
        self.nopen += 1
        script = self.script(self.nopen)
        if any(c in mode for c in "wax+"):
            self.writes += 1
            raise PermissionError(errno.EACCES, "the data files are not to be written", path)
        if script.get("open"):
            code = getattr(errno, script["open"])
            SIM.fired("io.open_" + script["open"].lower())
            self.hard += 1
            raise OSError(code, os.strerror(code), path)
        data = self.content(path)
        self.sizes[os.path.relpath(_real(path), DATA)] = len(data)
        data = damage(data, script, SIM.fired)
        self.names.append(os.path.relpath(_real(path), DATA))
        return SimRaw(self, path, data, script), script

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if isinstance(file, int):
            raw = self.fds[file]
            script = raw.script
        else:
            raw, script = self.raw(file, mode)
        if buffering == 0:
            return raw
        size = script.get("buffer") or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        buffered = io.BufferedReader(raw, size)
        if "b" in mode:
            return buffered
        return io.TextIOWrapper(buffered, encoding or "utf8", errors, newline)

    # the level of system calls, for code that works on descriptors

    def os_open(self, path, flags):
        raw, _ = self.raw(path, "w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else "r")
        return raw.fileno()

    def os_read(self, fd, size):
        buf = bytearray(size)
        while True:
            try:
                return bytes(buf[:self.fds[fd].readinto(buf)])
            except InterruptedError:     # PEP 475: os.read tries again
                pass

    def os_stat(self, path, real):
        """The size of the file as it will be found by the next open."""
        try:
            info = real(path)
        except FileNotFoundError:
            if os.path.relpath(_real(path), DATA) not in self.tar:
                raise
            info = real(os.path.join(DATA, "data.tar"))
        if not stat.S_ISREG(info.st_mode):
            return info
        data = damage(self.content(path), self.script(self.nopen + 1))
        values = list(info)
        values[6] = len(data)
        return os.stat_result(values, info.__reduce__()[1][1])


def damage(data, script, fired=lambda name: None):
    """The bytes that are left of a file after the damage."""
    if "cut" in script:
        if script["cut"] < len(data):
            fired("io.truncated")
        data = data[:script["cut"]]
    for pos, val in script.get("flip", ()):
        if data:
            fired("io.flipped_byte")
            pos %= len(data)
            data = data[:pos] + bytes([val]) + data[pos + 1:]
    if "hole" in script and data:
        lo, hi = sorted(x % len(data) for x in script["hole"])
        fired("io.hole")
        data = data[:lo] + bytes(hi - lo) + data[hi:]
    if "tail" in script:
        fired("io.torn_tail")
        keep = max(0, len(data) - script["tail"][0])
        data = data[:keep] + bytes([script["tail"][1]]) * (len(data) - keep)
    return data


class SimStdout(io.TextIOBase):
    """Standard output: the n-th write may fail (broken pipe, full disk)."""

    def __init__(self, script=None, keep=True):
        super().__init__()
        self.script = script or {}
        self.writes = 0
        self.fired = 0
        self.lines = []
        self.keep = keep

    def writable(self):
        return True

    @property
    def encoding(self):
        return self.script.get("encoding", "utf-8")

    def write(self, text):
        self.writes += 1
        if SIM.sched is not None and SIM.sched.managed():
            SIM.sched.point()
        at = self.script.get("at")
        if at is not None and (self.writes == at or (self.writes > at and
                                                     self.script.get("persist"))):
            kind = self.script["err"]
            SIM.fired("stdout." + kind)
            self.fired += 1
            if kind == "interrupt":
                raise KeyboardInterrupt("simulated Ctrl-C while printing")
            code = getattr(errno, kind)
            cls = BrokenPipeError if kind == "EPIPE" else OSError
            raise cls(code, os.strerror(code))
        if self.script.get("encoding") == "ascii":
            SIM.fired("stdout.ascii")
            text.encode("ascii")
        if self.keep:
            self.lines.append(text)
        return len(text)

    def flush(self):
        pass
