"""X01: the standalone writer script copies the same blocks as the main tool."""

import builtins
import errno
import io
import os
import runpy

from hypothesis import strategies as st

from pbt import gen, util
from pbt.core import REPO, Facet, Info, Property
from pbt.copyh import check_same, expected
from pbt.util import build_bmap, check, content

SCRIPT = os.path.join(REPO, "contrib", "bmap_write.py")


def script():
    import warnings

    warnings.simplefilter("ignore")
    runpy.run_path(SCRIPT, run_name="__main__")


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


class Traced(io.FileIO):
    """The destination of the script: notes what is written and when it is synchronized."""

    all = []
    fixed = False

    def __init__(self, *args):
        io.FileIO.__init__(self, *args)
        self.dirty = False
        Traced.all.append(self)

    def write(self, b):
        self.dirty = True
        return io.FileIO.write(self, b)

    def truncate(self, *args):
        if Traced.fixed:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        self.dirty = True
        return io.FileIO.truncate(self, *args)


def trace(dst, fixed, report):
    """-> functions for 'child_setup' and 'child_finish' of run_cli(); 'fixed': the destination cannot be resized, like a device"""

    def setup():
        Traced.fixed = fixed
        real_open = builtins.open
        real = {n: getattr(os, n) for n in ("fsync", "fdatasync", "sync")}

        def fake_open(file, mode="r", *args, **kwargs):
            if isinstance(file, str) and os.path.abspath(file) == dst and mode in ("wb", "bw", "wb+", "w+b"):
                if fixed and os.path.exists(dst):
                    # (nor emptied)
                    raw = Traced(os.open(dst, os.O_RDWR), "r+")
                else:
                    raw = Traced(file, mode.replace("b", ""))
                return io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
            return real_open(file, mode, *args, **kwargs)

        def sync_one(name):
            def call(fd):
                real[name](fd)
                for t in Traced.all:
                    if not t.closed and t.fileno() == (fd if isinstance(fd, int) else fd.fileno()):
                        t.dirty = False
            return call

        def sync():
            real["sync"]()
            for t in Traced.all:
                t.dirty = False

        builtins.open = fake_open
        os.fsync, os.fdatasync, os.sync = sync_one("fsync"), sync_one("fdatasync"), sync

    def finish():
        if any(t.dirty for t in Traced.all):
            put(report, b"dirty")

    return {"child_setup": setup, "child_finish": finish}


def run(spec):
    d = util.scratch("ext")
    bs, nblk = spec["bs"], spec["nblk"]
    size = nblk * bs - spec["tail"] % bs
    data = content({"kind": spec["kind"], "seed": spec["seed"]}, size)
    ranges = [list(r) for r in util.norm_ranges((min(a, nblk - 1), min(a + n, nblk - 1)) for a, n in spec["ranges"])]
    sub = os.path.join(d, spec["dir"])
    os.makedirs(sub, exist_ok=True)
    stem = spec["stem"]
    image = stem + spec["ext"]
    # The bmap next to it
    bname = os.path.splitext(image)[0] + ".bmap"
    missing = spec["missing"]
    if missing != "image":
        put(os.path.join(sub, image), data)
    if missing != "bmap":
        put(os.path.join(sub, bname), build_bmap(spec["version"], size, bs, ranges, data, checksums=spec["sums"], style=spec["style"]))
    elif bname != image + ".bmap":
        put(os.path.join(sub, image + ".bmap"), build_bmap("1.2", size, bs, [[0, 0]], checksums=False))
    dst = os.path.join(d, "dst")
    if spec["old"]:
        put(dst, b"\xee" * spec["old"])
    args = [os.path.join(spec["dir"], image), "dst"]
    if missing == "args":
        args = args[:1]
    elif missing == "extra":
        args.append("more")
    fixed = bool(spec.get("fixed")) and not missing
    report = os.path.join(util.scratch("ext"), "report")
    old = b""
    if fixed:
        old = util.fast_pattern(3, nblk * bs + 10)
        put(dst, old)
    before = util.tree_state(d)
    res = util.run_cli(args, d, main=script, **trace(dst, fixed, report))
    after = util.tree_state(d)
    before.pop("dst", None)
    after.pop("dst", None)
    check(before == after, "other files were changed")
    if missing:
        check(res.code > 0, "missing: %s, but: %r", missing, res)
        if spec["old"]:
            with open(dst, "rb") as f:
                check(f.read() == b"\xee" * spec["old"], "the destination was touched")
        else:
            check(not os.path.exists(dst), "the destination was made")
        return Info(True, "missing " + missing)
    check(res.code == 0, "the script failed: %r", res)
    check(not os.path.exists(report), "the script ended, but did not synchronize what it wrote")
    with open(dst, "rb") as f:
        got = f.read()
    if fixed:
        # A device
        want = bytearray(old)
        for a, b in ranges:
            want[a * bs:min((b + 1) * bs, size)] = data[a * bs:min((b + 1) * bs, size)]
        check_same(got, bytes(want), "what the script wrote to a destination which cannot be resized", bs)
        return Info(True, "destination of fixed size")
    check_same(got, expected(b"", data, size, bs, ranges), "the copy of the script", bs)
    os.unlink(dst)
    res = util.run_cli(["copy", "--bmap", os.path.join(spec["dir"], bname), args[0], "dst"], d)
    check(res.code == 0, "the main tool failed: %r", res)
    with open(dst, "rb") as f:
        check_same(f.read(), got, "the copy of the main tool", bs)
    return Info(True, "version " + spec["version"], "block size %s" % ("4096" if bs == 4096 else "other"), "last block listed" if ranges[-1][1] == nblk - 1 else "hole at the end",
                "unaligned" if size % bs else "aligned")


def strategy():
    return st.fixed_dictionaries({
        "bs": gen.weighted((4, st.just(4096)), (4, st.sampled_from([1, 2, 7, 512, 1000, 1024, 8192, 65536])), (1, st.sampled_from([3 << 19, 1 << 20]))), "nblk": gen.ints(1, 24),
        "tail": gen.weighted((2, st.just(0)), (3, gen.ints(0, 1 << 20))), "kind": gen.weighted((4, st.just("rand")), (1, st.sampled_from(["ff", "low", "text"]))), "seed": gen.ints(0, 20),
        "ranges": st.lists(st.tuples(gen.ints(0, 23), gen.ints(0, 6)), min_size=1, max_size=8), "version": st.sampled_from(["1.0", "1.1", "1.2", "1.3", "1.4", "2.0"]), "sums": st.booleans(),
        "style": gen.ints(0, 60), "dir": st.sampled_from(["", "sub", "v1.2", "with space"]), "stem": st.sampled_from(["image", "a.b", "my image", "ü", ".hidden"]),
        "ext": st.sampled_from([".img", ".raw", "", ".x y", ".data"]), "old": st.sampled_from([0, 0, 10, 300000]),
        "fixed": gen.weighted((4, st.just(False)), (1, st.just(True))),
        "missing": gen.weighted((9, st.just("")), (1, st.sampled_from(["image", "bmap", "args", "extra"])))})


def run_far(spec):
    """Blocks beyond 4 GiB."""
    d = util.scratch("ext")
    bs, nblk = spec["bs"], spec["gib"] * (1 << 30) // spec["bs"] + 5
    size = nblk * bs - spec["tail"] % bs
    ranges = [list(r) for r in util.norm_ranges((max(0, min(nblk - 1, nblk * a // 1000 + b)), min(nblk - 1, max(0, nblk * a // 1000 + b) + n)) for a, b, n in spec["ranges"])]
    with open(os.path.join(d, "i.img"), "wb") as f:
        f.truncate(size)
        for a, b in ranges:
            for blk in range(a, b + 1):
                f.seek(blk * bs)
                f.write(content({"seed": blk % 50}, min(bs, size - blk * bs)))
                if blk + 1 < nblk and blk + 1 > b:
                    f.write(b"not listed"[:max(0, min(10, size - (blk + 1) * bs))])
    put(os.path.join(d, "i.bmap"), build_bmap("2.0", size, bs, ranges, checksums=False, style=spec["style"]))
    res = util.run_cli(["i.img", "dst"], d, main=script)
    check(res.code == 0, "the script failed: %r", res)
    dst = os.path.join(d, "dst")
    check(os.path.getsize(dst) == size, "the copy has %d bytes, not %d", os.path.getsize(dst), size)
    listed = util.Intervals((a * bs, min((b + 1) * bs, size)) for a, b in ranges)
    holes = holes_of(dst, size)
    with open(dst, "rb") as f:
        data = util.Intervals([(0, size)]).minus(holes)
        for a, b in data.spans:
            f.seek(a)
            buf = f.read(b - a)
            want = bytearray(b - a)
            for x, y in listed.clip(a, b).spans:
                with open(os.path.join(d, "i.img"), "rb") as g:
                    g.seek(x)
                    want[x - a:y - a] = g.read(y - x)
            check(buf == bytes(want), "the copy is wrong between %d and %d", a, b)
    for a, b in listed.spans:
        check(not holes.clip(a, b).spans, "a listed block was not written: %d..%d", a, b)
    return Info(True, "beyond 4 GiB" if ranges[-1][1] * bs >= 1 << 32 else "below 4 GiB")


def holes_of(path, size):
    return util.Intervals(util.holes_by_seek(path))


def far_st():
    return st.fixed_dictionaries({
        "bs": st.sampled_from([4096, 8192, 65536]), "gib": gen.ints(1, 20), "tail": gen.ints(0, 5000), "style": gen.ints(0, 20),
        "ranges": st.lists(st.tuples(gen.ints(0, 1000), gen.ints(-3, 3), gen.ints(0, 4)), min_size=1, max_size=5)})


PROPERTY = Property(
    "X01",
    "The script run as a program on images of 1 to 24 blocks (block sizes from 1 byte to 1.5 MiB, aligned or not) and on sparse images of up to 20 GiB, bmaps of all versions and layouts "
    "(spacing, single blocks written either way), any image and directory names, previous destinations, destinations which cannot be resized; against the reference copy and the main tool's; plus missing inputs; synchronization of what was written. Every "
    "case is non-trivial.",
    [Facet("small", strategy, run, quick=700, thorough=12000, shards=4),
     Facet("far", far_st, run_far, quick=120, thorough=1500, shards=2)],
)
