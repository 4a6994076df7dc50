"""
A stand-in for the extent-map ioctl, with the layout taken from the holes which
the kernel reports, and the freedom file systems have in how they present it:
extents split anywhere, not made of whole blocks (SMB shares, data kept in the
inode), cut to the area asked for or not, ending at the end of the file or
behind it, storage allocated behind the end.
"""

import contextlib
import fcntl
import os
import struct

FIEMAP = 0xC020660B
HEAD = struct.Struct("=QQLLLL")
EXTENT = struct.Struct("=QQQQQLLLL")
LAST, NOT_ALIGNED = 1, 0x100
# What else file systems say about extents with data: location unknown, not allocated yet, compressed, encrypted, inline, in a tail, merged, shared
FLAGS = (0, 0, 2, 2 | 4, 8, 8 | 0x80, 0x100 | 0x200, 0x100 | 0x400, 0x1000, 0x2000, 0x2000 | 8)


_CACHE = {}
# Files of a file system which maps what was written when it is synchronized only: (device, inode) -> size and time of change then
_BEHIND = {}


def note_sync(fd):
    st = os.fstat(fd)
    if (st.st_dev, st.st_ino) in _BEHIND:
        _BEHIND[st.st_dev, st.st_ino] = (st.st_size, st.st_mtime_ns)


def is_behind(fd):
    st = os.fstat(fd)
    key = st.st_dev, st.st_ino
    return key in _BEHIND and _BEHIND[key] != (st.st_size, st.st_mtime_ns)


@contextlib.contextmanager
def late(path):
    """The file system shows the file at 'path' as a hole until it is synchronized."""
    st = os.stat(path)
    real = {n: getattr(os, n) for n in ("fsync", "fdatasync", "sync", "lseek")}

    def sync_one(name):
        def call(fd):
            real[name](fd)
            note_sync(fd if isinstance(fd, int) else fd.fileno())
        return call

    def sync():
        real["sync"]()
        for key in _BEHIND:
            st = os.stat(path)
            _BEHIND[key] = (st.st_size, st.st_mtime_ns)

    def lseek(fd, pos, whence):
        if whence in (os.SEEK_DATA, os.SEEK_HOLE) and is_behind(fd):
            if whence == os.SEEK_DATA or pos >= os.fstat(fd).st_size:
                raise OSError(6, os.strerror(6))
            return pos
        return real["lseek"](fd, pos, whence)

    _BEHIND[st.st_dev, st.st_ino] = None
    os.fsync, os.fdatasync, os.sync, os.lseek = sync_one("fsync"), sync_one("fdatasync"), sync, lseek
    try:
        yield
    finally:
        for n, f in real.items():
            setattr(os, n, f)
        _BEHIND.clear()


def extents(fd, spec, bs):
    st = os.fstat(fd)
    key = (st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns, st.st_ctime_ns, repr(spec), bs)
    if key not in _CACHE:
        _CACHE.clear()
        _CACHE[key] = layout(fd, spec, bs)
    return _CACHE[key]


def layout(fd, spec, bs):
    size = os.fstat(fd).st_size
    spans = []
    pos = 0
    where = os.lseek(fd, 0, os.SEEK_CUR)
    try:
        while pos < size:
            try:
                a = os.lseek(fd, pos, os.SEEK_DATA)
            except OSError:
                break
            pos = os.lseek(fd, a, os.SEEK_HOLE)
            spans.append((a, pos))
    finally:
        os.lseek(fd, where, os.SEEK_SET)
    out = []
    piece = spec["piece"] * 4096
    for a, b in spans:
        end = b if spec["trim"] else -(-b // 4096) * 4096
        if not piece:
            out.append((a, end))
            continue
        pos = a
        while pos < end:
            cut = (pos // piece + 1) * piece + spec["shift"]
            if cut - piece > pos:
                cut -= piece
            out.append((pos, min(cut, end)))
            pos = out[-1][1]
    if not spec["trim"] and out and not spec["shift"]:
        # Whole blocks, as most file systems have it
        whole = []
        for a, b in out:
            a, b = a // bs * bs, -(-b // bs) * bs
            if whole and a < whole[-1][1]:
                a = whole[-1][1]
            if a < b:
                whole.append((a, b))
        out = whole
    if spec["beyond"]:
        start = max([-(-size // bs) * bs] + [b for _, b in out])
        out.append((start, start + spec["beyond"] * bs))
    return out


@contextlib.contextmanager
def scripted(spec, bs):
    """'spec': {"piece", "shift", "trim", "clip", "beyond"}"""
    from bmaptools import BmapCreate  # noqa: F401  pylint: disable=unused-import,import-outside-toplevel

    real = fcntl.ioctl

    def ioctl(fd, request, *args):
        if request & 0xFFFFFFFF != FIEMAP:
            return real(fd, request, *args)
        num = fd if isinstance(fd, int) else fd.fileno()
        arg = args[0]
        buf = bytearray(arg) if isinstance(arg, bytes) else memoryview(arg).cast("B")
        start, length, flags, _, room, _ = HEAD.unpack_from(buf, 0)
        if length == 0:
            raise OSError(22, os.strerror(22))
        if flags & 1:
            note_sync(num)
        every = extents(num, spec, bs) if not is_behind(num) else []
        hit = [(a, b) for a, b in every if a < start + length and b > start]
        if room:
            hit = hit[:room]
            for i, (a, b) in enumerate(hit):
                flag = LAST if (a, b) == every[-1] else 0
                where = a + (1 << 30)
                if spec.get("flags"):
                    flag |= FLAGS[(spec["flags"] * 2654435761 + a // 512 * 40503 >> 7) % len(FLAGS)]
                    where = 0 if flag & 0x20e else where
                if a % 4096 or b % 4096:
                    flag |= NOT_ALIGNED
                if spec["clip"]:
                    a, b = max(a, start), min(b, start + length)
                EXTENT.pack_into(buf, HEAD.size + i * EXTENT.size, a, where, b - a, 0, 0, flag, 0, 0, 0)
        HEAD.pack_into(buf, 0, start, length, flags, len(hit), room, 0)
        return bytes(buf) if isinstance(arg, bytes) else 0

    fcntl.ioctl = ioctl
    try:
        yield
    finally:
        fcntl.ioctl = real
