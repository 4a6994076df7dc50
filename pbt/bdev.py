"""
A stand-in for a block device: a regular file of the device's capacity which
the code under test sees as a block device (stat mode and number), with a
scratch copy of the device's sysfs directory.  Opens, writes, resizes and
synchronizations are recorded; nothing outside of the scratch directory is
touched.
"""

import builtins
import errno
import io
import os
import stat

from pbt import util
from pbt.util import Recorder, _RECORDERS

MAJOR, MINOR = 259, 77777
SYS = "/sys/dev/block/%d:%d" % (MAJOR, MINOR)


class RawDev(util.RawDest):
    """Raw access to the stand-in: no growth beyond its capacity."""

    def __init__(self, file, mode, dev, closefd=True):
        self.rec = dev.rec
        self.dev = dev
        io.FileIO.__init__(self, file, mode, closefd)
        dev.rec.fd = self.fileno()
        _RECORDERS[self.fileno()] = dev.rec

    def write(self, data):
        off = io.FileIO.tell(self)
        room = self.dev.capacity - off
        if len(data) and room <= 0:
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if len(data) > room:
            data = memoryview(data)[:room]
        return util.RawDest.write(self, data)

    def truncate(self, size=None):
        self.rec.events.append(("truncate", size))
        raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))


class SysRaw(io.RawIOBase):
    """A sysfs attribute: the driver sees the value with each write."""

    def __init__(self, dev, key, mode, fd=None):
        io.RawIOBase.__init__(self)
        self.dev, self.key_, self.mode_, self.fd_ = dev, key, mode, fd
        self.pos = 0

    def readable(self):
        return "r" in self.mode_ or "+" in self.mode_

    def writable(self):
        return any(c in self.mode_ for c in "wa+x")

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else 0
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        return size or 0

    def readinto(self, buf):
        data = self.dev.tunable(self.key_).encode()[self.pos:self.pos + len(buf)]
        buf[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def write(self, data):
        data = bytes(data)
        if data:
            self.dev.sys_write(self.key_, data)
        self.pos += len(data)
        return len(data)

    def close(self):
        if not self.closed and self.fd_ is not None:
            os.close(self.fd_)
        io.RawIOBase.close(self)

    def layers(self, buffering, *args, **kwargs):
        """What open() puts on top of it."""
        if "b" in self.mode_ and buffering == 0:
            return self
        if self.readable() and self.writable():
            buf = io.BufferedRandom(self)
        elif self.writable():
            buf = io.BufferedWriter(self)
        else:
            buf = io.BufferedReader(self)
        if "b" in self.mode_:
            return buf
        kwargs.pop("closefd", None)
        kwargs.pop("opener", None)
        return io.TextIOWrapper(buf, *args, **kwargs)


class FakeBdev(object):
    """
    'sysfs' maps "scheduler"/"max_ratio" to initial contents (None: absent); the
    tunables behave like the kernel's (unknown values are refused).
    'partition': the device is a partition of the disk which has the tunables.
    'sys_faults': {("scheduler", "read"): errno, ...}
    """

    def __init__(self, d, capacity, old=b"", sysfs=None, partition=False, sys_faults=None, excl_error=None, name="fakedev"):
        self.rec = Recorder()
        self.capacity = capacity
        self.path = os.path.join(d, name)
        with open(self.path, "wb") as f:
            f.write(old[:capacity])
            f.truncate(capacity)
        st = os.stat(self.path)
        self.ident = (st.st_dev, st.st_ino)
        self.opens = []  # (kind, flags)
        self.excl_error = excl_error
        self.sys_faults = sys_faults or {}
        self.sys_log = []
        disk = os.path.join(d, "sys-%s" % name)
        os.makedirs(os.path.join(disk, "queue"))
        os.makedirs(os.path.join(disk, "bdi"))
        self.files = {"scheduler": os.path.join(disk, "queue", "scheduler"), "max_ratio": os.path.join(disk, "bdi", "max_ratio")}
        for key, value in (sysfs if sysfs is not None else {"scheduler": "[mq-deadline] none\n", "max_ratio": "100\n"}).items():
            if value is not None:
                with open(self.files[key], "w") as f:
                    f.write(value)
        self.root = disk
        if partition:
            self.root = os.path.join(disk, "part1")
            os.mkdir(self.root)
        self._saved = {}
        self.sys_fds = {}  # descriptors of tunables open for writing
        self.stores = {}  # how many times a value was taken

    def tunable(self, key):
        """What the kernel would show, None if there is no such thing."""
        try:
            with io.FileIO(self.files[key]) as f:
                return f.readall().decode()
        except OSError:
            return None

    def current(self, key):
        """The active value."""
        value = self.tunable(key)
        if value is not None:
            value = value.strip()
            if "[" in value:
                value = value[value.index("[") + 1:value.index("]")]
        return value

    def store(self, key, value):
        """What the kernel does with a value written to a tunable."""
        if self.stores.get(key, 0):
            self.fault(key, "restore")
        value = value.strip()
        old = self.tunable(key)
        if "[" in old:
            options = old.replace("[", "").replace("]", "").split()
            if value not in options:
                raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
            value = " ".join("[%s]" % o if o == value else o for o in options)
        elif key == "scheduler":
            if value != old.strip():
                raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        elif not value.isdigit() or int(value) > 100:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        # What failed is tried again by the file's layers when they are closed
        self.stores[key] = self.stores.get(key, 0) + 1
        with io.FileIO(self.files[key], "w") as f:
            f.write((value + "\n").encode())

    def sys_write(self, key, data):
        late = self.sys_faults.get((key, "late-write"))
        if late:
            raise OSError(late, os.strerror(late))
        self.store(key, data.decode())

    # -- path mapping
    def map(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return path
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p == SYS or p.startswith(SYS + "/"):
            return self.root + p[len(SYS):]
        return path

    def is_dev(self, path):
        try:
            return os.path.realpath(os.fspath(path)) == os.path.realpath(self.path)
        except TypeError:
            return False

    def key(self, mapped):
        try:
            real = os.path.realpath(mapped)
        except TypeError:
            return None
        for k, p in self.files.items():
            if real == os.path.realpath(p):
                return k
        return None

    def as_blk(self, st):
        fields = list(st)[:10]
        fields[0] = stat.S_IFBLK | 0o660
        fields[6] = 0
        extra = {k: getattr(st, k) for k in dir(st) if k.startswith("st_") and k not in ("st_mode", "st_size")}
        extra["st_rdev"] = os.makedev(MAJOR, MINOR)
        return os.stat_result(tuple(fields), extra)

    def fault(self, key, op):
        if self.tunable(key) is None:
            return
        num = self.sys_faults.get((key, op))
        if num:
            raise OSError(num, os.strerror(num))

    # -- patches
    def __enter__(self):
        dev = self
        real = self._saved
        real.update(open=builtins.open, osopen=os.open, stat=os.stat, fstat=os.fstat, access=os.access, lstat=os.lstat, truncate=os.truncate,
                    ftruncate=os.ftruncate, write=os.write, close=os.close)

        def fstat(fd):
            st = real["fstat"](fd)
            if (st.st_dev, st.st_ino) == dev.ident:
                return dev.as_blk(st)
            return st

        def mystat(path, *args, **kwargs):
            if isinstance(path, int):
                return fstat(path)
            st = real["stat"](dev.map(path), *args, **kwargs)
            if (st.st_dev, st.st_ino) == dev.ident:
                return dev.as_blk(st)
            return st

        def lstat(path, *args, **kwargs):
            st = real["lstat"](dev.map(path), *args, **kwargs)
            if (st.st_dev, st.st_ino) == dev.ident:
                return dev.as_blk(st)
            return st

        def access(path, *args, **kwargs):
            return real["access"](dev.map(path), *args, **kwargs)

        def osopen(path, flags, *args, **kwargs):
            mapped = dev.map(path)
            key = dev.key(mapped)
            if key:
                acc = flags & os.O_ACCMODE
                if acc in (os.O_RDONLY, os.O_RDWR):
                    dev.fault(key, "read")
                if acc in (os.O_WRONLY, os.O_RDWR):
                    dev.fault(key, "write")
                    dev.sys_log.append((key, "w"))
                    fd = real["osopen"](mapped, flags & ~(os.O_TRUNC | os.O_CREAT), *args, **kwargs)
                    dev.sys_fds[fd] = key
                    return fd
                dev.sys_log.append((key, "r"))
            if dev.is_dev(path):
                dev.opens.append(("os.open", flags))
                if flags & os.O_EXCL and dev.excl_error:
                    raise OSError(dev.excl_error, os.strerror(dev.excl_error), os.fspath(path))
                fd = real["osopen"](path, flags & ~(os.O_TRUNC | os.O_CREAT | os.O_EXCL), *args, **kwargs)
                _RECORDERS[fd] = dev.rec
                return fd
            return real["osopen"](mapped, flags, *args, **kwargs)

        def opener(file, mode="r", buffering=-1, *args, **kwargs):
            if isinstance(file, int):
                try:
                    st = real["fstat"](file)
                except OSError:
                    st = None
                if st is not None and (st.st_dev, st.st_ino) == dev.ident:
                    return dev.wrap(file, mode, buffering, kwargs.get("closefd", True))
                if file in dev.sys_fds:
                    return SysRaw(dev, dev.sys_fds[file], mode, file).layers(buffering, *args, **kwargs)
                return real["open"](file, mode, buffering, *args, **kwargs)
            mapped = dev.map(file)
            key = dev.key(mapped)
            if key:
                writing = any(c in mode for c in "wa+x")
                reading = "r" in mode or "+" in mode
                if reading:
                    dev.fault(key, "read")
                if writing:
                    dev.fault(key, "write")
                dev.sys_log.append((key, "w" if writing else "r"))
                if writing and os.path.exists(dev.files[key]):
                    return SysRaw(dev, key, mode).layers(buffering, *args, **kwargs)
                return real["open"](mapped, mode, buffering, *args, **kwargs)
            if dev.is_dev(file):
                flags = {"r": os.O_RDONLY, "w": os.O_WRONLY, "a": os.O_WRONLY, "x": os.O_WRONLY}[mode.replace("b", "").replace("t", "")[0]]
                if "+" in mode:
                    flags = os.O_RDWR
                dev.opens.append(("open", flags))
                fd = real["osopen"](file, flags)
                return dev.wrap(fd, mode, buffering, True)
            return real["open"](mapped, mode, buffering, *args, **kwargs)

        def ftruncate(fd, length):
            st = real["fstat"](fd)
            if (st.st_dev, st.st_ino) == dev.ident:
                dev.rec.events.append(("truncate", length))
                raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
            return real["ftruncate"](fd, length)

        def truncate(path, length):
            if isinstance(path, int):
                return ftruncate(path, length)
            if dev.is_dev(path):
                dev.rec.events.append(("truncate", length))
                raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
            return real["truncate"](path, length)

        def oswrite(fd, data):
            if fd in dev.sys_fds:
                dev.sys_write(dev.sys_fds[fd], bytes(data))
                return len(data)
            return real["write"](fd, data)

        def osclose(fd):
            dev.sys_fds.pop(fd, None)
            return real["close"](fd)

        os.write = oswrite
        os.close = osclose
        builtins.open = opener
        io.open = opener
        os.open = osopen
        os.stat = mystat
        os.lstat = lstat
        os.fstat = fstat
        os.access = access
        os.ftruncate = ftruncate
        os.truncate = truncate
        return self

    def wrap(self, fd, mode, buffering, closefd):
        m = mode.replace("b", "").replace("t", "").replace("+", "")
        raw = RawDev(fd, "r+" if "+" in mode else m, self, closefd)
        if buffering == 0:
            return raw
        if "+" in mode:
            return io.BufferedRandom(raw)
        if "w" in mode or "a" in mode:
            return io.BufferedWriter(raw)
        return io.BufferedReader(raw)

    def __exit__(self, *exc):
        real = self._saved
        builtins.open = real["open"]
        io.open = real["open"]
        os.open = real["osopen"]
        os.stat = real["stat"]
        os.lstat = real["lstat"]
        os.fstat = real["fstat"]
        os.access = real["access"]
        os.ftruncate = real["ftruncate"]
        os.truncate = real["truncate"]
        os.write = real["write"]
        os.close = real["close"]
        return False

    def contents(self):
        with open(self.path, "rb") as f:
            return f.read()
