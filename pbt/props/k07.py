"""K07: no I/O failure during a copy is ever reported as success."""

import builtins
import errno
import io
import os
import signal

from hypothesis import strategies as st

from pbt import bdev, gen, util
from pbt.copyh import bmap_file, check_same, do_copy, expected
from pbt.core import Facet, Info, Property, Violation
from pbt.props import b01
from pbt.util import MemImage, Recorder, build_bmap, check, content

ERRS = [errno.EIO, errno.ENOSPC, errno.EBADF, errno.EINVAL, errno.EFBIG, errno.EDQUOT, errno.ENXIO, errno.EROFS]
NAMES = {"write": "writing", "seek": "seeking in", "truncate": "resizing", "sync": "synchronizing"}


class Plan(dict):
    """Faults at one index, or from an index on."""

    def __init__(self, first, factory, sticky):
        dict.__init__(self)
        self.first = first
        self.factory = factory
        self.sticky = sticky

    def __contains__(self, n):
        return isinstance(n, int) and (n >= self.first if self.sticky else n == self.first)

    def get(self, n, default=None):
        return self.factory if n in self else default

    def __getitem__(self, n):
        return self.factory


class Marked(Exception):
    """An error of an unforeseen kind from the image source."""


def factories(spec):
    num = spec["errno"]
    kind = spec["exc"]
    if kind == "os":
        return (lambda: OSError(num, os.strerror(num))), os.strerror(num)
    if kind == "trans":
        from bmaptools import TransRead

        return (lambda: TransRead.Error("the source is gone 4711")), "the source is gone 4711"
    if kind == "eof":
        return (lambda: EOFError("unexpected end 4711")), "unexpected end 4711"
    return (lambda: Marked("something else 4711")), "something else 4711"


def attempt(spec, d, image, bmap, fault, n):
    """One copy with at most one fault: fault = (kind, index, sticky) or None."""
    g = spec["g"]
    src = MemImage(image)
    exc, text = factories(spec)
    kind = index = sticky = None
    if fault:
        kind, index, sticky = fault
    if kind == "read":
        src.fail_at = Plan(index, exc, sticky)
    elif kind == "iseek":
        src.seek_fail_at = Plan(index, exc, sticky)
    num = spec["errno"]
    oserr = lambda: OSError(num, os.strerror(num))  # noqa: E731
    declared = g["size"] if spec["declare"] else None
    explicit = spec["explicit"]
    f = bmap_file(d, bmap, "b%d.bmap" % n) if bmap is not None else None
    path = os.path.join(d, "dest%d" % n)

    def go(dest):
        out = do_copy(src, dest, f, declared, spec["sync"], spec["verify"], bdev=spec["dest"] == "dev", before=arm)
        if out.kind == "ok" and explicit:
            from bmaptools import BmapCopy

            try:
                out.writer.sync()
            except BmapCopy.Error as e:
                out.kind, out.exc = "error", e
            except Exception as e:  # pylint: disable=broad-except
                out.kind, out.exc = "crash", e
        return out

    def arm(_writer):
        # Only the copy counts, not the preparations
        rec.counts.clear()
        if kind in NAMES:
            rec.faults[kind] = Plan(index, oserr, sticky)

    if spec["dest"] == "dev":
        dev = bdev.FakeBdev(d, (g["size"] + 99) // 1, b"", name="dev%d" % n)
        rec = dev.rec
        with dev:
            dest = open(dev.path, "wb")
            out = go(dest)
            rec.faults.clear()
            close(dest)
        got = dev.contents()
    else:
        rec = Recorder()
        dest = util.open_dest(path, rec, {"rw": "wb+", "w": "wb"}[spec["dest"]])
        out = go(dest)
        rec.faults.clear()
        close(dest)
        with open(path, "rb") as o:
            got = o.read()
    if f:
        f.close()
    hit = bool(rec.triggered or src.triggered)
    text = os.strerror(num) if kind in NAMES else text
    counts = dict(rec.counts, read=src.reads, iseek=src.seeks)
    return out, got, counts, hit, text


def close(dest):
    try:
        dest.close()
    except OSError:
        pass


def run(spec):
    util.patch_os()
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch("shm")
    image = content({"seed": 8}, size)
    bmap = None
    if spec["bmap"]:
        bmap = build_bmap(g["version"], size, bs, ranges, image if spec["chk"] else None, style=g["style"])
    else:
        bs, ranges = 4096, [[0, (size - 1) // 4096]]
    out, got, counts, _, _ = attempt(spec, d, image, bmap, None, 0)
    check(out.kind == "ok", "the copy without a fault gave %r", out)
    if spec["dest"] != "dev":
        check_same(got, expected(b"", image, size, bs, ranges), "the destination without a fault", bs)
    n = 0
    labels = set()
    for kind in ("read", "iseek", "write", "seek", "truncate", "sync"):
        total = counts.get(kind, 0)
        points = list(range(total)) if total <= spec.get("all", 12) else sorted({0, 1, 2, total - 1, total - 2, total // 2, total // 3, spec["pick"] % total} if "all" not in spec else {0, total - 1, spec["pick"] % total})
        for index in points:
            n += 1
            sticky = (index + spec["pick"]) % 3 == 0
            out, got, _, hit, text = attempt(spec, d, image, bmap, (kind, index, sticky), n)
            if not hit:
                # Fewer operations than the first time, as scheduling would have it
                check(out.kind == "ok", "no fault was injected, but: %r", out)
                continue
            labels.add("fault when " + {"read": "reading the image", "iseek": "seeking in the image"}.get(kind, NAMES.get(kind, kind) + " the destination"))
            where = "%s %d of %d failed with %r" % (kind, index + 1, total, text)
            check(out.kind != "ok", "%s, but the copy was reported as success", where)
            check(text in str(out.exc), "%s, but the error does not say so: %r", where, out)
    return Info(n > 1, "dest " + spec["dest"], "bmap" if bmap else "no bmap", "%d+ points" % (n // 8 * 8), *sorted(labels))


def strategy():
    return st.fixed_dictionaries({
        "g": gen.geometry(max_bytes=3 << 20, nonempty=True),
        "bmap": gen.weighted((4, st.just(True)), (1, st.just(False))),
        "chk": st.booleans(),
        "verify": st.booleans(),
        "declare": st.booleans(),
        "sync": st.booleans(),
        "explicit": st.booleans(),
        "dest": gen.weighted((3, st.just("rw")), (1, st.just("w")), (1, st.just("dev"))),
        "errno": st.sampled_from(ERRS),
        "exc": gen.weighted((3, st.just("os")), (1, st.just("trans")), (1, st.just("eof")), (1, st.just("other"))),
        "pick": gen.ints(0, 200),
    })


def large_st():
    """Copies to devices with several synchronizations on the way."""
    return st.fixed_dictionaries({
        "g": b01.large_g().map(lambda g: dict(g, size=min(g["size"], 18 << 20))).map(clip),
        "bmap": st.booleans(), "chk": st.booleans(), "verify": st.booleans(), "declare": st.booleans(), "sync": st.booleans(), "explicit": st.booleans(),
        "dest": st.just("dev"), "errno": st.sampled_from(ERRS), "exc": st.just("os"), "pick": gen.ints(0, 200), "all": st.just(5)})


def clip(g):
    last = (g["size"] - 1) // g["bs"]
    return dict(g, ranges=[[a, min(b, last)] for a, b in g["ranges"] if a <= last])


# --- command line -----------------------------------------------------------


class FlakyRaw(io.FileIO):
    """An image file which cannot be read from some place on."""

    def __init__(self, path, limit, num):
        io.FileIO.__init__(self, path, "r")
        self.limit = limit
        self.num = num

    def readinto(self, b):
        pos = self.tell()
        if pos >= self.limit:
            raise OSError(self.num, os.strerror(self.num))
        n = min(len(b), self.limit - pos)
        return io.FileIO.readinto(self, memoryview(b)[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        return bytes(buf[:self.readinto(buf)])

    def readall(self):
        raise OSError(self.num, os.strerror(self.num))


def run_cli(spec):
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch("shm")
    image = content({"seed": 8}, size)
    src, dst = os.path.join(d, "i.img"), os.path.join(d, "out")
    with open(src, "wb") as f:
        f.write(image)
    if spec["bmap"]:
        with open(src + ".bmap", "wb") as f:
            f.write(build_bmap(g["version"], size, bs, ranges, image if spec["chk"] else None, style=g["style"]))
    else:
        bs, ranges = 4096, [[0, (size - 1) // 4096]]
    end = min((ranges[-1][1] + 1) * bs, size)
    start = ranges[0][0] * bs
    marker = os.path.join(d, "triggered")
    mode = spec["mode"]
    num = spec["errno"]
    rec = Recorder()
    dest = dst
    sure = False

    def setup():
        real = builtins.open

        def opener(file, mode="r", *args, **kwargs):
            if isinstance(file, str) and "b" in mode:
                if os.path.abspath(file) == dst and ("w" in mode or "+" in mode):
                    return util.open_dest(file, rec, mode)
                if os.path.abspath(file) == src and spec["mode"] == "read":
                    return io.BufferedReader(FlakyRaw(file, limit, num))
            return real(file, mode, *args, **kwargs)

        util.patch_os()
        builtins.open = opener
        if spec["mode"] in NAMES:
            rec.faults[spec["mode"]] = Plan(spec["index"], lambda: OSError(num, os.strerror(num)), spec["sticky"])

    def finish():
        if rec.triggered:
            with open(marker, "w"):
                pass

    child_setup, child_finish = setup, finish
    if mode == "read":
        limit = start + (end - start) * spec["frac"] // 8
        limit = min(limit, end - 1)
        sure = True
    elif mode == "fsize":
        child_finish = None
        limit = min((end * spec["frac"]) // 8, end - 1)

        def child_setup():
            import resource

            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))

        sure = True
    elif mode == "full":
        child_setup = child_finish = None
        dest = "/dev/full"
        sure = True
    args = ["copy"] + ([] if spec["bmap"] else ["--nobmap"]) + ["i.img", dest]
    res = util.run_cli(args, d, child_setup=child_setup, child_finish=child_finish)
    hit = sure or os.path.exists(marker)
    if hit:
        check(res.code > 0, "%s failed (%s, point %d), but: %r", mode, os.strerror(num), spec["index"], res)
        # The file size limit stops the messages as well
        check(mode == "fsize" or res.err.strip(), "%s failed, but there is no message", mode)
    else:
        check(res.code == 0, "no fault was injected, but: %r", res)
        with open(dst, "rb") as f:
            check_same(f.read(), expected(b"", image, size, bs, ranges), "the destination", bs)
    return Info(hit, "mode " + mode, "fault happened" if hit else "no fault")


def cli_st():
    return st.fixed_dictionaries({
        "g": gen.geometry(max_bytes=2 << 20, nonempty=True),
        "bmap": gen.weighted((3, st.just(True)), (1, st.just(False))),
        "chk": st.booleans(),
        "mode": gen.weighted((3, st.sampled_from(["read", "fsize"])), (1, st.just("full")), (3, st.sampled_from(["write", "sync", "truncate", "seek"]))),
        "index": gen.weighted((3, gen.ints(0, 2)), (1, gen.ints(0, 8))),
        "sticky": st.booleans(),
        "frac": gen.ints(0, 8),
        "errno": st.sampled_from(ERRS),
    })


PROPERTY = Property(
    "K07",
    "For each generated copy (geometry, bmap or not, file/device destination) a faultless run counts the reads and seeks of the image and the writes, seeks, resizes, flushes and "
    "synchronizations of the destination; then one run per such point (all of them up to 12 per kind, spread ones beyond) fails that operation, once or from then on, with system "
    "errors or, for the image, errors of other kinds; the same for device copies of up to 18 MiB, which synchronize on the way; the command line is run with read errors, file-size limits, the full device and faults at its own descriptors; "
    "non-trivial: the fault happened.",
    [Facet("points", strategy, run, quick=840, thorough=6000, shards=6),
     Facet("large", large_st, run, quick=160, thorough=1500, shards=4),
     Facet("cli", cli_st, run_cli, quick=480, thorough=5000, shards=2, noise="vspn")],
    ["errors which the system reports only after the last synchronization cannot be noticed by anyone"],
)
