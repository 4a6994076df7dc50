"""
Shared machinery: scratch space, deterministic contents, sparse images, a
reference bmap writer/parser that shares nothing with the code under test,
recording and fault-injecting file objects, and a command-line runner.
"""

import contextlib
import ctypes
import errno
import fcntl
import gc
import hashlib
import io
import json
import os
import queue
import shutil
import signal
import stat
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import xml.etree.ElementTree as ET

from pbt.core import REPO, Skip, Violation

# --------------------------------------------------------------------------
# Worker set-up and scratch space
# --------------------------------------------------------------------------

_W = {"ext": None, "shm": None, "case": 0}
_LIBC = ctypes.CDLL(None, use_errno=True)
DIST_PACKAGES = "/usr/lib/python3/dist-packages"


def init_worker(scratch):
    """Called once per process, before anything of the repository is imported."""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if DIST_PACKAGES not in sys.path:
        sys.path.append(DIST_PACKAGES)
    _W["ext"] = tempfile.mkdtemp(prefix="w-", dir=scratch)
    tag = os.path.basename(scratch.rstrip("/"))
    parent = os.path.basename(os.path.dirname(scratch.rstrip("/")))
    if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK):
        _W["shm"] = tempfile.mkdtemp(prefix="%s.%s." % (parent if parent.startswith("pbt-") else tag, tag), dir="/dev/shm")
    os.environ["HOME"] = _W["ext"]
    os.environ.pop("NETRC", None)
    for var in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY", "ftp_proxy", "FTP_PROXY"):
        os.environ.pop(var, None)
    os.environ["no_proxy"] = "*"
    os.environ["LC_ALL"] = "C.UTF-8"
    os.environ["TMPDIR"] = _W["ext"]
    tempfile.tempdir = _W["ext"]
    import bmaptools

    where = os.path.abspath(bmaptools.__file__)
    if not where.startswith(REPO + os.sep):
        raise RuntimeError("bmaptools comes from %s rather than from %s" % (where, REPO))
    import logging

    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    root.addHandler(logging.NullHandler())


def cleanup_worker():
    for key in ("ext", "shm"):
        if _W[key]:
            shutil.rmtree(_W[key], ignore_errors=True)


def sweep_leftovers(scratch):
    """Remove what the shards of a finished check left under /dev/shm."""
    tag = os.path.basename(scratch.rstrip("/"))
    try:
        for name in os.listdir("/dev/shm"):
            if name.startswith(tag + "."):
                shutil.rmtree(os.path.join("/dev/shm", name), ignore_errors=True)
    except OSError:
        pass


_case_dirs = []


def scratch(kind="ext"):
    """A fresh directory for the current case: 'ext' (disk) or 'shm' (tmpfs)."""
    base = _W[kind]
    if base is None:
        raise Skip("no tmpfs here")
    _W["case"] += 1
    d = os.path.join(base, "c%d" % _W["case"])
    os.mkdir(d)
    _case_dirs.append(d)
    return d


# --------------------------------------------------------------------------
# Ordinary users
# --------------------------------------------------------------------------

USER = 65534


def may_change_user():
    """Whether this process may act as another user."""
    if "user" not in _W:
        try:
            os.seteuid(USER)
            os.seteuid(0)
            _W["user"] = os.getuid() == 0
        except OSError:
            _W["user"] = False
    return _W["user"]


def for_user(d):
    """
    Let an ordinary user work in the scratch directory 'd', where he may read
    all there is (files belong to root), but change only what is made his.
    -> a directory for his temporary files
    """
    tmp = scratch("ext")
    for where in (d, tmp):
        os.chown(where, USER, USER)
        up = os.path.dirname(where)
        while up not in ("/tmp", "/dev/shm", "/var/tmp", "/"):
            os.chmod(up, os.stat(up).st_mode | 0o011)
            up = os.path.dirname(up)
    for base, dirs, files in os.walk(d):
        for n in dirs:
            os.chmod(os.path.join(base, n), 0o755)
        for n in files:
            if not os.path.islink(os.path.join(base, n)):
                os.chmod(os.path.join(base, n), 0o444)
    return tmp


def become_user(tmp):
    """For 'child_setup' of run_cli()."""
    os.environ["TMPDIR"] = os.environ["HOME"] = tempfile.tempdir = tmp
    os.setgroups([])
    os.setresgid(USER, USER, USER)
    os.setresuid(USER, USER, USER)


@contextlib.contextmanager
def as_user(tmp):
    """Act as that user for a while."""
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    os.setegid(USER)
    os.seteuid(USER)
    try:
        yield
    finally:
        os.seteuid(0)
        os.setegid(0)
        tempfile.tempdir = old


_cleanups = []


def at_case_end(func):
    _cleanups.append(func)


@contextlib.contextmanager
def case_scope(noise=None):
    _W["noise"] = noise
    try:
        yield
    finally:
        _W["noise"] = None
        with blocked_alarm():
            while _cleanups:
                func = _cleanups.pop()
                try:
                    func()
                except Exception:  # pylint: disable=broad-except
                    pass
            while _case_dirs:
                shutil.rmtree(_case_dirs.pop(), ignore_errors=True)


@contextlib.contextmanager
def blocked_alarm():
    signal.alarm(0)
    yield


# --------------------------------------------------------------------------
# Deterministic contents
# --------------------------------------------------------------------------


def pattern(seed, n):
    """n pseudo-random bytes, the first and last of which are not zero."""
    if n <= 0:
        return b""
    buf = bytearray(hashlib.shake_128(str(seed).encode()).digest(n))
    buf[0] |= 1
    buf[-1] |= 1
    return bytes(buf)


_PAT = {}


def fast_pattern(seed, n):
    """Like pattern(), cheaper for megabytes: 64 KiB random, rotated and tagged."""
    key = seed % 64
    base = _PAT.get(key)
    if base is None:
        base = _PAT[key] = pattern(key, 65521)  # a prime length
    reps = n // len(base) + 1
    buf = bytearray((base * reps)[:n])
    if n:
        buf[0] |= 1
        buf[-1] |= 1
    return bytes(buf)


def content(spec, n):
    """Contents by kind: 'rand', 'zero', 'ff', 'text', 'low' (mostly zeroes), 'rep' (a short period)."""
    kind = spec.get("kind", "rand")
    seed = spec.get("seed", 0)
    if kind == "zero":
        return bytes(n)
    if kind == "ff":
        return b"\xff" * n
    if kind == "rep":
        # Blocks of most sizes are the same
        return (pattern(seed, 8) * (n // 8 + 1))[:n]
    if kind == "text":
        return (b"line %d of the image\n" % seed * (n // 10 + 1))[:n]
    if kind == "low":
        buf = bytearray(n)
        for i in range(seed % 7, n, 997):
            buf[i] = 1 + (i + seed) % 255
        return bytes(buf)
    return fast_pattern(seed, n)


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        while True:
            b = f.read(1 << 20)
            if not b:
                return h.hexdigest()
            h.update(b)


# --------------------------------------------------------------------------
# File-system truth
# --------------------------------------------------------------------------


def fs_block_size(path):
    """What FIGETBSZ says (the block size the file system works with)."""
    with open(path, "rb") as f:
        try:
            return struct.unpack("I", fcntl.ioctl(f.fileno(), 2, struct.pack("I", 0)))[0]
        except OSError:
            return os.fstat(f.fileno()).st_blksize


def fiemap_supported(path):
    with open(path, "rb") as f:
        buf = bytearray(32 + 56 * 4)
        struct.pack_into("=QQLLLL", buf, 0, 0, 4096, 0, 0, 4, 0)
        try:
            fcntl.ioctl(f.fileno(), 0xC020660B, buf, True)
            return True
        except OSError:
            return False


def holes_by_seek(path):
    """[(start, end)] byte ranges which the kernel reports as holes."""
    result = []
    fd = os.open(path, os.O_RDONLY)
    try:
        os.fsync(fd)
        size = os.fstat(fd).st_size
        pos = 0
        while pos < size:
            try:
                hole = os.lseek(fd, pos, os.SEEK_HOLE)
            except OSError as err:
                if err.errno == errno.ENXIO:
                    break
                raise
            if hole >= size:
                break
            try:
                data = os.lseek(fd, hole, os.SEEK_DATA)
            except OSError as err:
                if err.errno != errno.ENXIO:
                    raise
                data = size
            result.append((hole, data))
            pos = data
    finally:
        os.close(fd)
    return result


FALLOC_KEEP, FALLOC_PUNCH, FALLOC_ZERO = 1, 2, 16


def fallocate(fd, mode, off, length):
    """The fallocate() system call; False if not supported here."""
    libc = ctypes.CDLL(None, use_errno=True)
    libc.fallocate.argtypes = (ctypes.c_int, ctypes.c_int, ctypes.c_int64, ctypes.c_int64)
    if libc.fallocate(fd, mode, off, length) != 0:
        return False
    return True


class Intervals(object):
    """A set of integers kept as sorted disjoint half-open intervals."""

    def __init__(self, spans=()):
        self.spans = []
        for a, b in spans:
            self.add(a, b)

    def add(self, a, b):
        if a >= b:
            return
        out = []
        for x, y in self.spans:
            if y < a or x > b:
                out.append((x, y))
            else:
                a, b = min(a, x), max(b, y)
        out.append((a, b))
        out.sort()
        self.spans = out

    def sub(self, a, b):
        out = []
        for x, y in self.spans:
            if y <= a or x >= b:
                out.append((x, y))
                continue
            if x < a:
                out.append((x, a))
            if y > b:
                out.append((b, y))
        self.spans = out

    def covers(self, a, b):
        return any(x <= a and b <= y for x, y in self.spans)

    def minus(self, other):
        result = Intervals()
        result.spans = list(self.spans)
        for a, b in other.spans:
            result.sub(a, b)
        return result

    def clip(self, a, b):
        result = Intervals()
        result.spans = [(max(x, a), min(y, b)) for x, y in self.spans if x < b and y > a]
        return result

    def __len__(self):
        return sum(y - x for x, y in self.spans)


# --------------------------------------------------------------------------
# Reference bmap writer and parser
# --------------------------------------------------------------------------


def norm_ranges(ranges):
    """Merge adjacent and overlapping (first, last) ranges."""
    out = []
    for a, b in sorted(ranges):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def range_checksum(image, block_size, first, last, cs_type):
    """'image' is bytes or an object with pread-like read_at(off, n)."""
    h = hashlib.new(cs_type)
    start, end = first * block_size, (last + 1) * block_size
    if isinstance(image, (bytes, bytearray)):
        h.update(image[start:end])
    else:
        pos = start
        while pos < end:
            buf = image(pos, min(1 << 20, end - pos))
            if not buf:
                break
            h.update(buf)
            pos += len(buf)
    return h.hexdigest()


def forge_digest(digest, how, num):
    """Another text than this checksum."""
    n = len(digest)
    if how == "digit":
        pos = num % n
        return digest[:pos] + "%x" % ((int(digest[pos], 16) + 1 + num // n % 15) % 16) + digest[pos + 1:]
    if how == "cut":
        return digest[:1 + num % (n - 1)]
    if how == "behead":
        return digest[1 + num % (n - 1):]
    if how == "longer":
        return digest + digest[:1 + num % n]
    if how == "pre":
        return digest[:1 + num % n] + digest
    if how == "mirror":
        return digest[::-1] if digest[::-1] != digest else "0" * n
    if how == "const":
        return "0123456789abcdef"[num % 16] * n
    raise KeyError(how)


def build_bmap(version, image_size, block_size, ranges, image=None, cs_type="sha256", checksums=True,
               style=0, mapped_cnt=None, blocks_cnt=None, skip_chksum=(), bad_chksum=(), pad=0):
    """
    A bmap file (bytes) of the given format version written by this harness,
    following docs and the samples in tests/test-data.  'style' varies what the
    format leaves open: spacing around numbers, "X-X" for one block, comments.
    """
    major, minor = [int(x) for x in version.split(".")]
    new_style = major > 1 or minor == 4
    if blocks_cnt is None:
        blocks_cnt = (image_size + block_size - 1) // block_size
    if mapped_cnt is None:
        mapped_cnt = sum(b - a + 1 for a, b in ranges)
    sp = [" ", "", "\n        ", "  \t"][style % 4]
    rsep = ["-", " - ", "-  ", " -"][(style // 4) % 4]
    out = ['<?xml version="1.0" ?>\n']
    if style % 3 == 0:
        out.append("<!-- This file contains a block map -->\n\n")
    out.append('<bmap version="%s">\n' % version)
    out.append("    <ImageSize>%s%d%s</ImageSize>\n" % (sp, image_size, sp))
    out.append("    <BlockSize>%s%d%s</BlockSize>\n" % (sp, block_size, sp))
    out.append("    <BlocksCount>%s%d%s</BlocksCount>\n" % (sp, blocks_cnt, sp))
    out.append("    <MappedBlocksCount>%s%d%s</MappedBlocksCount>\n" % (sp, mapped_cnt, sp))
    cs_tag = None
    if new_style:
        out.append("    <ChecksumType>%s%s%s</ChecksumType>\n" % (sp, cs_type, sp))
        cs_tag, attr = "BmapFileChecksum", "chksum"
    else:
        cs_type, attr = "sha1", "sha1"
        if minor == 3:
            cs_tag = "BmapFileSHA1"
    cs_len = len(hashlib.new(cs_type).hexdigest())
    if cs_tag:
        out.append("    <%s>%s%s%s</%s>\n" % (cs_tag, sp, "\0CS\0", sp, cs_tag))
    out.append("    <BlockMap>\n")
    if style % 5 == 1:
        out.append("        <!-- the ranges -->\n")
    if pad:
        out.append("        <!-- %s -->\n" % "".join("%8x\n" % x for x in range(pad // 9)))
    for i, (a, b) in enumerate(ranges):
        text = "%d" % a if a == b and not (style // 2) % 2 else "%d%s%d" % (a, rsep, b)
        attrib = ""
        if checksums and image is not None and i not in skip_chksum:
            digest = range_checksum(image, block_size, a, b, cs_type)
            if i in bad_chksum:
                how, num = bad_chksum[i] if isinstance(bad_chksum, dict) else ("digit", 0)
                digest = forge_digest(digest, how, num)
            attrib = ' %s="%s"' % (attr, digest)
        out.append("        <Range%s>%s%s%s</Range>\n" % (attrib, sp, text, sp))
    out.append("    </BlockMap>\n</bmap>\n")
    text = "".join(out)
    if cs_tag:
        zero = text.replace("\0CS\0", "0" * cs_len).encode()
        text = text.replace("\0CS\0", hashlib.new(cs_type, zero).hexdigest())
    return text.encode()


class Bmap(object):
    """A bmap file read by this harness."""

    def __init__(self, data):
        self.data = data
        root = ET.fromstring(data)
        self.root = root
        self.version = root.attrib["version"]
        num = lambda tag: int(root.find(tag).text.strip())
        self.image_size = num("ImageSize")
        self.block_size = num("BlockSize")
        self.blocks_cnt = num("BlocksCount")
        self.mapped_cnt = num("MappedBlocksCount")
        cst = root.find("ChecksumType")
        self.cs_type = cst.text.strip() if cst is not None else None
        csum = root.find("BmapFileChecksum")
        self.file_chksum = csum.text.strip() if csum is not None else None
        self.ranges = []
        self.chksums = []
        for r in root.find("BlockMap").findall("Range"):
            parts = [int(x) for x in r.text.split("-")]
            self.ranges.append((parts[0], parts[-1]))
            self.chksums.append(r.attrib.get("chksum"))
            if set(r.attrib) - {"chksum"}:
                raise Violation("unexpected attribute of a range: %r" % r.attrib)
            if len(parts) not in (1, 2):
                raise Violation("odd range %r" % r.text)

    def self_checksum(self):
        pos = self.data.index(b"<BmapFileChecksum>")
        pos = self.data.index(self.file_chksum.encode(), pos)
        n = len(self.file_chksum)
        zeroed = self.data[:pos] + b"0" * n + self.data[pos + n:]
        return hashlib.new(self.cs_type, zeroed).hexdigest()


# --------------------------------------------------------------------------
# Recording / fault-injecting files
# --------------------------------------------------------------------------


class Recorder(object):
    """
    Observes what happens to one file: writes (offset, length), truncations,
    and synchronizations, in order, and can make the n-th operation of a kind
    fail.  Used through RawDest plus the patched os functions.
    """

    def __init__(self):
        self.events = []  # ("write", off, data-len) ("truncate", n) ("sync",) ("seek", off)
        self.faults = {}  # kind -> {index: exception factory}
        self.counts = {}
        self.total_written = 0
        self.unsynced = 0
        self.max_unsynced = 0
        self.on_write = None
        self.snap = None  # callable invoked on sync
        self.triggered = []
        self.fd = None

    def hit(self, kind):
        n = self.counts.get(kind, 0)
        self.counts[kind] = n + 1
        plan = self.faults.get(kind)
        if plan is not None and (n in plan or "all" in plan):
            self.triggered.append((kind, n))
            raise (plan.get(n) or plan.get("all"))()

    def wrote(self, off, n):
        self.events.append(("write", off, n))
        self.total_written += n
        self.unsynced += n
        self.max_unsynced = max(self.max_unsynced, self.unsynced)

    def synced(self):
        self.events.append(("sync",))
        self.unsynced = 0
        if self.snap:
            self.snap()

    def written(self):
        iv = []
        for ev in self.events:
            if ev[0] == "write":
                iv.append((ev[1], ev[1] + ev[2]))
        iv.sort()
        out = []
        for a, b in iv:
            if out and a <= out[-1][1]:
                out[-1] = (out[-1][0], max(out[-1][1], b))
            else:
                out.append((a, b))
        return out


class RawDest(io.FileIO):
    """The raw layer of a destination file which reports to a Recorder."""

    def __init__(self, path, mode, rec):
        self.rec = rec
        io.FileIO.__init__(self, path, mode)
        rec.fd = self.fileno()
        _RECORDERS[self.fileno()] = rec

    def write(self, data):
        rec = self.rec
        n = len(data)
        rec.hit("write")
        off = io.FileIO.tell(self)
        if rec.on_write:
            rec.on_write(off, n)
        done = io.FileIO.write(self, data)
        if done:
            rec.wrote(off, done)
        return done

    def seek(self, *args):
        self.rec.hit("seek")
        return io.FileIO.seek(self, *args)

    def truncate(self, size=None):
        if size is None:
            size = io.FileIO.tell(self)
        self.rec.hit("truncate")
        self.rec.events.append(("truncate", size))
        return io.FileIO.truncate(self, size)

    def close(self):
        if not self.closed:
            _RECORDERS.pop(self.fileno(), None)
        io.FileIO.close(self)


_RECORDERS = {}
_REAL = {}


def open_dest(path, rec, mode="wb+"):
    """What open(path, mode) gives, but recorded."""
    raw = RawDest(path, mode.replace("b", ""), rec)
    if "+" in mode:
        return io.BufferedRandom(raw)
    return io.BufferedWriter(raw)


def patch_os():
    """Route fsync & co. on recorded descriptors through their Recorder."""
    if _REAL:
        return
    for name in ("fsync", "fdatasync", "ftruncate", "write", "pwrite", "truncate", "sync"):
        _REAL[name] = getattr(os, name)

    def find(num):
        rec = _RECORDERS.get(num)
        if rec is None and _RECORDERS:
            # Another descriptor of the same file?
            try:
                me = os.fstat(num)
                for other, r in list(_RECORDERS.items()):
                    st = os.fstat(other)
                    if (st.st_dev, st.st_ino) == (me.st_dev, me.st_ino):
                        return r
            except OSError:
                pass
        return rec

    def wrap_sync(name):
        def func(fd):
            num = fd if isinstance(fd, int) else fd.fileno()
            rec = find(num)
            if rec is not None:
                rec.hit("sync")
            _REAL[name](fd)
            if rec is not None:
                rec.synced()

        return func

    def sync():
        _REAL["sync"]()
        for rec in set(_RECORDERS.values()):
            rec.synced()

    os.sync = sync
    os.fsync = wrap_sync("fsync")
    os.fdatasync = wrap_sync("fdatasync")

    def ftruncate(fd, length):
        rec = _RECORDERS.get(fd)
        if rec is not None:
            rec.hit("truncate")
            rec.events.append(("truncate", length))
        return _REAL["ftruncate"](fd, length)

    os.ftruncate = ftruncate

    def truncate(path, length):
        if isinstance(path, int):
            return ftruncate(path, length)
        return _REAL["truncate"](path, length)

    os.truncate = truncate

    def oswrite(fd, data):
        rec = _RECORDERS.get(fd)
        if rec is None:
            return _REAL["write"](fd, data)
        rec.hit("write")
        off = os.lseek(fd, 0, os.SEEK_CUR)
        done = _REAL["write"](fd, data)
        rec.wrote(off, done)
        return done

    os.write = oswrite

    def ospwrite(fd, data, off):
        rec = _RECORDERS.get(fd)
        if rec is None:
            return _REAL["pwrite"](fd, data, off)
        rec.hit("write")
        done = _REAL["pwrite"](fd, data, off)
        rec.wrote(off, done)
        return done

    os.pwrite = ospwrite


class MemImage(object):
    """A forward-only image source: only name, read and seek, as documented."""

    def __init__(self, data, name="mem.img", size=None, zero_tail=0):
        self.data = data
        self.name = name
        self.pos = 0
        self.max_read = 0
        self.reads = 0
        self.fail_at = None  # read index -> exception factory
        self.short_at = None  # position at which the data ends early
        self.seek_fail_at = None
        self.seeks = 0
        self.on_read = None
        self.triggered = []

    def read(self, n=-1):
        idx = self.reads
        self.reads += 1
        if self.on_read:
            self.on_read(n)
        if self.fail_at is not None and idx in self.fail_at:
            self.triggered.append(("read", idx))
            raise self.fail_at[idx]()
        end = len(self.data) if self.short_at is None else min(self.short_at, len(self.data))
        if n is None or n < 0:
            n = end
        buf = self.data[self.pos:min(self.pos + n, end)]
        self.pos += len(buf)
        return bytes(buf)

    def seek(self, off, whence=0):
        idx = self.seeks
        self.seeks += 1
        if self.seek_fail_at is not None and idx in self.seek_fail_at:
            self.triggered.append(("iseek", idx))
            raise self.seek_fail_at[idx]()
        if whence == 1:
            off += self.pos
        if off < self.pos:
            raise Violation("the image was seeked backwards from %d to %d" % (self.pos, off))
        self.pos = off

    def tell(self):
        return self.pos

    def close(self):
        pass


def drain(obj):
    """Unblock a reader thread which is stuck in a full queue after a failure."""
    for value in list(vars(obj).values()):
        if isinstance(value, queue.Queue):
            deadline = time.time() + 2
            while time.time() < deadline:
                try:
                    item = value.get(timeout=0.02)
                except queue.Empty:
                    break
                if item is None:
                    break


# --------------------------------------------------------------------------
# Command-line runner
# --------------------------------------------------------------------------


class CliResult(object):
    def __init__(self, code, out, err):
        self.code = code
        self.out = out
        self.err = err

    def __repr__(self):
        return "exit status %s, output %r, messages %r" % (self.code, self.out[-500:], self.err[-2000:])


def with_noise(args):
    """Add the options which do not matter (see Facet.noise) to the command line."""
    noise = _W.get("noise")
    if not noise or args[0] not in ("copy", "create"):
        return args
    opts = []
    if args[0] == "copy":
        given = " ".join(args)
        if noise.get("s") and "--bmap-sig" not in given:
            opts.append(noise["s"])
        opts += [noise[k] for k in "pn" if noise.get(k) and noise[k].split("=")[0] not in given]
    args = list(args)
    if noise["last"] and "--" not in args:
        args += opts
    else:
        args[1:1] = opts
    return [noise[k] for k in "vd" if noise.get(k)] + args


def run_cli(args, cwd, stdin=None, env=None, child_setup=None, timeout=35, child_finish=None, main=None):
    """
    Run the command-line tool in a forked child (the modules are already
    loaded, so that it takes milliseconds) and return CliResult.
    """
    from bmaptools import CLI  # noqa: F401  pylint: disable=unused-import

    if not main:
        args = with_noise(args)
    out_path = os.path.join(_W["ext"], "cli.out")
    err_path = os.path.join(_W["ext"], "cli.err")
    fo = os.open(out_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    fe = os.open(err_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    if stdin is None:
        fi = os.open("/dev/null", os.O_RDONLY)
    else:
        in_path = os.path.join(_W["ext"], "cli.in")
        with open(in_path, "wb") as f:
            f.write(stdin)
        fi = os.open(in_path, os.O_RDONLY)
    sys.stdout.flush()
    sys.stderr.flush()
    gc.collect()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.setpgid(0, 0)
            # (not to be left behind, should the worker be killed)
            _LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)
            os.dup2(fi, 0)
            os.dup2(fo, 1)
            os.dup2(fe, 2)
            for fd in (fi, fo, fe):
                if fd > 2:
                    os.close(fd)
            sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, "r", closefd=False)))
            sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), write_through=True)
            sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), write_through=True)
            os.chdir(cwd)
            if env:
                for k, v in env.items():
                    if v is None:
                        os.environ.pop(k, None)
                    else:
                        os.environ[k] = v
            if child_setup:
                child_setup()
            sys.argv = ["bmaptool"] + list(args)
            code = _cli_child(main)
            gc.collect()
            if child_finish:
                child_finish()
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
        finally:
            os._exit(code)
    for fd in (fi, fo, fe):
        os.close(fd)
    deadline = time.time() + timeout
    pause = 0.001
    status = None
    try:
        while True:
            got, st = os.waitpid(pid, os.WNOHANG)
            if got:
                status = st
                break
            if time.time() > deadline:
                raise Violation("the command %r did not finish within %d s" % (args, timeout))
            time.sleep(pause)
            pause = min(pause * 1.5, 0.02)
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        if status is None:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    with open(out_path, "rb") as f:
        out = f.read()
    with open(err_path, "rb") as f:
        err = f.read().decode(errors="replace")
    if code == 99:
        raise RuntimeError("the command runner failed: %s" % err)
    return CliResult(code, out, err)


def _cli_child(main=None):
    """main() with the exit status the interpreter would give."""
    from bmaptools import CLI

    try:
        rc = (main or CLI.main)()
    except SystemExit as exc:
        rc = exc.code
        if rc is not None and not isinstance(rc, int):
            print(rc, file=sys.stderr)
            rc = 1
    except KeyboardInterrupt:
        rc = 130
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        rc = 1
    if rc is None:
        rc = 0
    if not isinstance(rc, int):
        print(rc, file=sys.stderr)
        rc = 1
    return rc & 0xFF


def run_cli_real(args, cwd, stdin=b"", env=None, timeout=60):
    """The same in a real interpreter process."""
    code = ("import sys; sys.dont_write_bytecode=True; sys.path.insert(0, %r); sys.path.append(%r); sys.argv[0]='bmaptool'; "
            "from bmaptools.CLI import main; sys.exit(main())" % (REPO, DIST_PACKAGES))
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    e.update(env or {})
    proc = subprocess.run([sys.executable, "-B", "-c", code] + list(args), cwd=cwd, input=stdin,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, check=False)
    return CliResult(proc.returncode, proc.stdout, proc.stderr.decode(errors="replace"))


# --------------------------------------------------------------------------
# Misc
# --------------------------------------------------------------------------


def check(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def tree_state(d):
    """Names, sizes, contents and times of everything under a directory."""
    result = {}
    for base, dirs, files in os.walk(d):
        for n in dirs:
            result[os.path.relpath(os.path.join(base, n), d) + "/"] = None
        for n in files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            result[os.path.relpath(p, d)] = (st.st_size, st.st_mtime_ns, sha(p) if stat.S_ISREG(st.st_mode) else None)
    return result


def oserror(num):
    return lambda: OSError(num, os.strerror(num))
