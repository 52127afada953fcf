"""Simulated storage.  Files are byte arrays with a durable and a volatile part; the code above
sees ordinary io objects (real BufferedWriter/Reader and TextIOWrapper over a simulated raw file)."""
import errno
import io


class SimDisk:
    def __init__(self, run, chunks=None, capacity=None):
        self.run = run
        self.files = {}  # name -> bytearray (what a reader sees now)
        self.durable = {}  # name -> bytes (what survives a crash)
        self.chunks = list(chunks or [])  # sizes of successive partial transfers, cycled
        self.ci = 0
        self.capacity = capacity
        self.fail_at = None  # (op, byte offset, errno)
        self.ops = 0

    def chunk(self):
        if not self.chunks:
            return 1 << 30
        c = self.chunks[self.ci % len(self.chunks)]
        self.ci += 1
        return max(1, c)

    def open(self, name, mode="r", newline=None, bufsize=8192, encoding="utf-8", trunc=True):
        if "w" in mode:
            if trunc or name not in self.files:
                self.files[name] = bytearray()
            raw = SimRaw(self, name, True)
            buf = io.BufferedWriter(raw, bufsize)
        else:
            if name not in self.files:
                raise FileNotFoundError(errno.ENOENT, "no such file", name)
            raw = SimRaw(self, name, False)
            buf = io.BufferedReader(raw, bufsize)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding=encoding, newline=newline)

    def sync(self, name):
        self.durable[name] = bytes(self.files[name])

    def crash(self, torn=None):
        """Only durable bytes survive; torn: {name: n} lets the first n volatile bytes reach the disk."""
        self.run.count("fault:crash")
        out = {}
        for name, cur in self.files.items():
            d = self.durable.get(name, b"")
            if torn and name in torn:
                n = torn[name]
                d = bytes(cur[:n]) + d[n:]
            out[name] = bytearray(d)
        self.files = out


class SimRaw(io.RawIOBase):
    def __init__(self, disk, name, writing):
        self.disk, self.name_, self.w, self.pos = disk, name, writing, 0

    def readable(self):
        return not self.w

    def writable(self):
        return self.w

    def seekable(self):
        return False

    def _fault(self, op, upto):
        f = self.disk.fail_at
        if f and f[0] == op and self.pos + upto > f[1]:
            n = f[1] - self.pos
            if n <= 0:
                self.disk.fail_at = None
                self.disk.run.count("fault:%s_%s" % (op, errno.errorcode[f[2]]))
                self.disk.run.log("io-error", op, f[1], f[2])
                raise OSError(f[2], "injected")
            return n
        return upto

    def write(self, b):
        b = bytes(b)
        n = min(len(b), self.disk.chunk())
        if n < len(b):
            self.disk.run.count("fault:short_write")
        n = self._fault("write", n)
        f = self.disk.files[self.name_]
        f[self.pos:self.pos + n] = b[:n]
        self.pos += n
        return n

    def readinto(self, b):
        data = self.disk.files[self.name_]
        want = min(len(b), len(data) - self.pos)
        n = min(want, self.disk.chunk())
        if n < want:
            self.disk.run.count("fault:short_read")
        if want:
            n = self._fault("read", n)
        b[:n] = data[self.pos:self.pos + n]
        self.pos += n
        return n
