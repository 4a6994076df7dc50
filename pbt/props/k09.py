"""K09: read-ahead is bounded and reader/writer speed never changes the result."""

import os
import threading
import time

from hypothesis import strategies as st

from pbt import gen, util
from pbt.copyh import bmap_file, do_copy
from pbt.core import Facet, Info, Property, Violation
from pbt.util import build_bmap, check

MB = 1 << 20
BASE_LEN = 72 * MB + 4099
_BASE = []


def base():
    """72 MiB of position-dependent bytes, made once per process."""
    if not _BASE:
        _BASE.append(memoryview(util.fast_pattern(11, BASE_LEN)))
    return _BASE[0]


def data_at(start, end):
    """The image: these bytes again and again"""
    out = []
    while start < end:
        off = start % BASE_LEN
        n = min(end - start, BASE_LEN - off)
        out.append(base()[off:off + n])
        start += n
    return bytes(out[0]) if len(out) == 1 else b"".join(out)


class Schedule(object):
    """Shared by the source and the destination; decides who waits for whom."""

    def __init__(self, spec, bound):
        self.cond = threading.Condition()
        self.read_bytes = 0
        self.reads = 0
        self.written = 0
        self.writes = 0
        self.max_ahead = 0
        self.bound = bound
        self.wstall = set(spec["wstall"])
        self.rstall = set(spec["rstall"])
        self.stamp = 0
        self.stalls = 0
        self.problem = None

    def quiet(self, what, quiet=0.02, limit=1.0):
        """Wait until the other side makes no progress."""
        end = time.time() + limit
        last, since = None, time.time()
        self.stalls += 1
        while time.time() < end:
            with self.cond:
                now = (self.reads, self.read_bytes) if what == "reader" else (self.writes, self.written)
                if self.problem:
                    return
            if now != last:
                last, since = now, time.time()
            elif time.time() - since > quiet:
                return
            time.sleep(0.003)

    def before_read(self):
        if self.reads in self.rstall:
            self.quiet("writer")

    def did_read(self, n):
        with self.cond:
            self.reads += 1
            self.read_bytes += n
            ahead = self.read_bytes - self.written
            self.max_ahead = max(self.max_ahead, ahead)
            if ahead > self.bound and not self.problem:
                self.problem = "%d bytes were read but not yet written, the bound is %d" % (ahead, self.bound)

    def before_write(self):
        if self.writes in self.wstall:
            self.quiet("reader")

    def did_write(self, n):
        with self.cond:
            self.writes += 1
            self.written += n


class Source(object):
    name = "synthetic.img"

    def __init__(self, size, sched, fail_at=None):
        self.size = size
        self.sched = sched
        self.pos = 0
        self.fail_at = fail_at
        self.failed = False

    def read(self, n=-1):
        self.sched.before_read()
        if self.sched.problem:
            # Enough is known; let the operation end
            raise OSError(5, "stopped by the harness")
        if self.fail_at is not None and self.sched.reads >= self.fail_at:
            self.failed = True
            raise OSError(5, "injected")
        end = self.size if n is None or n < 0 else min(self.pos + n, self.size)
        buf = data_at(self.pos, end)
        self.pos = max(end, self.pos)
        self.sched.did_read(len(buf))
        return buf

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off


class Sink(object):
    """A destination which compares what it gets instead of storing it."""

    def __init__(self, path, sched):
        self.f = open(path, "wb+", buffering=0)
        self.name = path
        self.sched = sched
        self.pos = 0
        self.done = []

    def fileno(self):
        return self.f.fileno()

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off
        return self.pos

    def tell(self):
        return self.pos

    def write(self, buf):
        n = len(buf)
        self.sched.before_write()
        if bytes(buf) != data_at(self.pos, self.pos + n):
            raise Violation("wrong data were written at offset %d (%d bytes)" % (self.pos, n))
        self.done.append((self.pos, self.pos + n))
        self.pos += n
        self.sched.did_write(n)
        return n

    def flush(self):
        pass

    def close(self):
        self.f.close()


def merge(spans):
    out = []
    for a, b in sorted(spans):
        if out and a < out[-1][1]:
            raise Violation("bytes %d..%d were written twice" % (a, out[-1][1]))
        if out and a == out[-1][1]:
            out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def layout(spec):
    """(size, block size, ranges)"""
    bs = spec["bs"]
    nblk = max(spec["mib"] * MB // bs, 3)
    if bs > 4 * MB:
        # More than the bound, which grows with the block size
        nblk = 17 + spec["mib"] // 5
    size = nblk * bs - spec["tail"] % bs
    gap = spec["gap"]
    if not gap:
        return size, bs, [[0, nblk - 1]]
    run = max(spec["run"] * MB // 4 // bs, 1)
    ranges = []
    pos = 0
    while pos < nblk and len(ranges) < 3000:
        ranges.append([pos, min(pos + run - 1, nblk - 1)])
        pos += run + gap
    return size, bs, ranges


def run(spec):
    size, bs, ranges = layout(spec)
    base()
    bound = 16 * max(MB, bs)
    sched = Schedule(spec, bound)
    d = util.scratch("shm")
    bmap = None
    if spec["bmap"]:
        bmap = build_bmap(spec["version"], size, bs, ranges, data_at(0, size) if spec["chk"] else None)
    else:
        bs, ranges = 4096, [[0, (size - 1) // 4096]]
    src = Source(size, sched, spec["fail"])
    dest = Sink(os.path.join(d, "dest"), sched)
    out = do_copy(src, dest, bmap_file(d, bmap) if bmap else None, size if spec["declare"] else None, False, spec["chk"])
    if sched.problem:
        raise Violation(sched.problem)
    want = []
    for a, b in ranges:
        want.append((a * bs, min((b + 1) * bs, size)))
    if src.failed:
        check(out.kind == "error", "the source failed, but: %r", out)
    else:
        check(out.kind == "ok", "the copy gave %r", out)
        got = merge(dest.done)
        check(got == merge(want), "the written areas are %r..., should be %r...", got[:5], merge(want)[:5])
        check(os.fstat(dest.fileno()).st_size == size, "the size of the destination is %d, should be %d", os.fstat(dest.fileno()).st_size, size)
    dest.close()
    total = sum(b - a for a, b in want)
    lab = ["read-ahead up to %d MiB" % (sched.max_ahead // MB) if sched.max_ahead < 4 * MB else "read-ahead of 4 MiB and more"]
    lab.append("bmap" if bmap else "no bmap")
    if spec["wstall"]:
        lab.append("slow destination")
    if spec["rstall"]:
        lab.append("slow source")
    if src.failed:
        lab.append("source failed")
    return Info(sched.stalls > 0 and total > bound, *lab)


def stalls():
    return gen.weighted((1, st.just([])), (2, st.lists(gen.ints(0, 12), max_size=2).map(sorted)), (1, st.lists(gen.ints(0, 70), max_size=3).map(sorted)))


def strategy():
    return st.fixed_dictionaries({
        "bs": gen.weighted((4, st.just(4096)), (2, st.sampled_from([512, 1000, 65536, MB])), (1, st.sampled_from([MB + 4096, 2 * MB, 3 * MB, 5 * MB])), (1, st.sampled_from([7 * MB, 6 * MB + 512, 12 * MB]))),
        "mib": gen.weighted((3, gen.ints(17, 40)), (1, gen.ints(0, 16)), (1, gen.ints(41, 70))),
        "tail": gen.ints(0, 5000),
        "gap": gen.weighted((2, st.just(0)), (2, gen.ints(1, 4))),
        "run": gen.weighted((2, gen.ints(1, 9)), (1, gen.ints(4, 60))),
        "bmap": gen.weighted((3, st.just(True)), (1, st.just(False))),
        "version": st.sampled_from(["1.2", "1.3", "2.0"]),
        "chk": gen.weighted((1, st.just(True)), (3, st.just(False))),
        "declare": st.booleans(),
        "wstall": stalls(),
        "rstall": stalls(),
        "fail": gen.weighted((6, st.none()), (1, gen.ints(0, 40))),
    })


_C = {"bs": 4096, "mib": 48, "tail": 0, "gap": 0, "run": 4, "bmap": True, "version": "2.0", "chk": False, "declare": False, "wstall": [0], "rstall": [], "fail": None}
CORNER = [_C, dict(_C, bmap=False), dict(_C, bs=512, wstall=[3, 20]), dict(_C, gap=1, run=1, wstall=[0, 9]), dict(_C, gap=1, run=1, bs=65536, wstall=[0, 9]),
          dict(_C, rstall=[0, 5, 30], wstall=[]), dict(_C, chk=True), dict(_C, bs=3 * MB, mib=70), dict(_C, bs=7 * MB, mib=20)]


# Real speeds: a source on a pipe and a destination with delays


def run_real(spec):
    """Random small delays on either side; the result must be right."""
    size, bs, ranges = layout(spec)
    image = data_at(0, size)
    d = util.scratch("shm")
    rd, wr = spec["rdelay"], spec["wdelay"]
    src = util.MemImage(image)
    src.on_read = lambda n: time.sleep(rd[src.reads % len(rd)] / 2000.0)
    rec = util.Recorder()
    state = {"n": 0}

    def on_write(off, n):
        state["n"] += 1
        time.sleep(wr[state["n"] % len(wr)] / 2000.0)

    rec.on_write = on_write
    path = os.path.join(d, "dest")
    dest = util.open_dest(path, rec, "wb+")
    bmap = build_bmap("2.0", size, bs, ranges, image if spec["chk"] else None)
    out = do_copy(src, dest, bmap_file(d, bmap), None, False, True)
    dest.close()
    check(out.kind == "ok", "the copy gave %r", out)
    from pbt.copyh import check_same, expected

    with open(path, "rb") as f:
        check_same(f.read(), expected(b"", image, size, bs, ranges), "the destination", bs)
    return Info(any(rd) or any(wr), "slow source" if sum(rd) > sum(wr) else "slow destination")


def real_st():
    delays = st.lists(gen.weighted((3, st.just(0)), (1, gen.ints(1, 10))), min_size=1, max_size=8)
    return st.fixed_dictionaries({
        "bs": st.sampled_from([4096, 512, 65536]), "mib": gen.ints(0, 10), "tail": gen.ints(0, 4096), "gap": gen.ints(0, 3), "run": gen.ints(1, 8),
        "chk": st.booleans(), "rdelay": delays, "wdelay": delays})


PROPERTY = Property(
    "K09",
    "Synthetic images of up to 70 MiB with generated schedules: at chosen transfers the destination waits until the source has not been read for a while, or the source waits for the "
    "destination, and the source may fail; at every read the bytes read and not yet written are compared with the bound, all written data and areas with the image, and the copy must "
    "end; plus random small delays on both sides; non-trivial: at least one stall and more data than the bound.",
    [Facet("schedule", strategy, run, quick=660, thorough=6000, shards=6, corner=CORNER),
     Facet("delays", real_st, run_real, quick=240, thorough=2000, shards=2)],
    ["the bound is 16 batches of 1 MiB, or 16 blocks when blocks are larger"],
)
