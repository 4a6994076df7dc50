"""L05: what a command does depends on its arguments and files, not on what ran before."""

import gzip
import hashlib
import os
import signal
import sys
import tempfile

from hypothesis import strategies as st

from pbt import gen, util
from pbt.bdev import FakeBdev
from pbt.copyh import check_same, expected
from pbt.core import Facet, Info, Property
from pbt.util import Bmap, check, fallocate, fast_pattern

BS = 4096
IMAGES = ["a.img", "b.img", "c.img"]
BMAPS = [i + ".bmap" for i in IMAGES] + ["x.bmap", "a.bmap"]
DEVICE = "fakedev"


def slurp(d):
    """Contents of the files (not of the tunables of the device)."""
    state = {}
    for name in os.listdir(d):
        path = os.path.join(d, name)
        if os.path.isfile(path):
            with open(path, "rb") as f:
                state[name] = f.read()
    return state


def times(d, name):
    st_ = os.stat(os.path.join(d, name))
    return (st_.st_ino, st_.st_mtime_ns, st_.st_size)


def data_map(path):
    """Ranges of blocks which are no holes, as the kernel says."""
    ranges = []
    with open(path, "rb") as f:
        fd = f.fileno()
        os.fsync(fd)
        size = os.fstat(fd).st_size
        pos = 0
        while pos < size:
            try:
                a = os.lseek(fd, pos, os.SEEK_DATA)
            except OSError:
                break
            b = os.lseek(fd, a, os.SEEK_HOLE)
            first, last = a // BS, (b - 1) // BS
            if ranges and first <= ranges[-1][1] + 1:
                ranges[-1][1] = last
            else:
                ranges.append([first, last])
            pos = b
    return ranges


def edit(d, op):
    """What the user does to the files between the commands."""
    kind, name = op[0], op[1]
    path = os.path.join(d, name)
    if kind == "gz":
        # (a stale one stays as it is when the image changes)
        if os.path.exists(path):
            with open(path, "rb") as f, open(path + ".gz", "wb") as g:
                g.write(gzip.compress(f.read(), 1))
    elif kind == "rm":
        if os.path.exists(path):
            os.unlink(path)
    elif kind == "mv":
        if os.path.exists(path) and op[2] != name:
            os.rename(path, os.path.join(d, op[2]))
    elif kind == "flip":
        if os.path.exists(path) and os.path.getsize(path):
            with open(path, "rb+") as f:
                pos = op[2] % os.path.getsize(path)
                f.seek(pos)
                c = f.read(1)[0]
                f.seek(pos)
                f.write(bytes([c ^ (1 << (op[2] % 7))]))
    else:
        fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o600)
        try:
            size = os.fstat(fd).st_size
            if kind == "w":
                os.pwrite(fd, fast_pattern(op[4], op[3] * BS - (op[4] * 511) % BS), op[2] * BS)
            elif kind == "p":
                if size:
                    fallocate(fd, util.FALLOC_KEEP | util.FALLOC_PUNCH, op[2] * BS, op[3] * BS)
            elif kind == "t":
                os.ftruncate(fd, max(op[2] * BS - op[3], 0))
        finally:
            os.close(fd)


class Interrupt(object):
    """Sends the process a signal at its n-th call or return."""

    def __init__(self, n, sig):
        self.left, self.sig = n, sig

    def __call__(self, _frame, _event, _arg):
        self.left -= 1
        if self.left == 0:
            sys.setprofile(None)
            os.kill(os.getpid(), self.sig)


def command(d, args, dev, cut, tmp):
    def setup():
        tempfile.tempdir = tmp
        os.environ["TMPDIR"] = tmp
        if dev:
            dev.__enter__()
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)

    def main():
        from bmaptools import CLI

        if cut:
            sys.setprofile(Interrupt(cut[0], cut[1]))
        try:
            return CLI.main()
        finally:
            sys.setprofile(None)

    return util.run_cli(args, d, child_setup=setup, main=main)


def valid_bmap(data):
    """-> Bmap or None if it must be refused"""
    try:
        b = Bmap(data)
        if b.self_checksum() != b.file_chksum:
            return None
        return b
    except Exception:  # pylint: disable=broad-except
        return None


def run_create(d, op, cut, tmp, labels):
    _, image, output, sums = op
    before = slurp(d)
    stamp = times(d, image) if image in before else None
    ranges = data_map(os.path.join(d, image)) if image in before else []
    res = command(d, ["create", image] + (["-o", output] if output else []) + ([] if sums else ["--no-checksum"]), None, cut, tmp)
    after = slurp(d)
    check({k: v for k, v in before.items() if k != output} == {k: v for k, v in after.items() if k != output}, "%r: other files changed: %r", op,
          sorted(k for k in set(before) | set(after) if k != output and before.get(k) != after.get(k)))
    if stamp and image != output:
        check(times(d, image) == stamp, "%r touched the image", op)
    proper = bool(before.get(image)) and image != output
    if not proper:
        check(res.code != 0, "%r cannot succeed: %r", op, res)
    elif not cut:
        check(res.code == 0, "%r: %r", op, res)
    if image == output and stamp:
        check(after.get(output) == before[output], "%r destroyed the image", op)
    if res.code == 0:
        bmap = Bmap(after[output] if output else res.out)
        data = before[image]
        check(bmap.self_checksum() == bmap.file_chksum, "%r: the bmap's own checksum is wrong", op)
        check([list(r) for r in bmap.ranges] == ranges, "%r: the bmap lists %r instead of %r", op, bmap.ranges, ranges)
        check((bmap.image_size, bmap.block_size, bmap.mapped_cnt) == (len(data), BS, sum(b - a + 1 for a, b in ranges)), "%r: wrong geometry", op)
        want = [hashlib.new(bmap.cs_type, data[a * BS:(b + 1) * BS]).hexdigest() if sums else None for a, b in ranges]
        check(bmap.chksums == want, "%r: wrong checksums", op)
    labels.append("create " + ("done" if res.code == 0 else "cut" if proper else "refused"))
    return res


def run_copy(d, op, cut, tmp, dev, labels):
    _, image, dest, how, verify = op
    before = slurp(d)
    gz = image.endswith(".gz")
    # Which bmap?
    name, bmap = None, None
    if how == "found":
        base = image
        while name is None:
            if base + ".bmap" in before:
                name = base + ".bmap"
            base, ext = os.path.splitext(base)
            if not ext:
                break
    elif how != "none":
        name = how.split(":")[-1]
    asked = ["--nobmap"] if how == "none" else ["--bmap", "file://" + os.path.join(d, name) if ":" in how else how] if how != "found" else []
    args = ["copy", image, dest] + asked + ([] if verify else ["--no-verify"])
    data = before.get(image)
    why = None
    sure = True
    if data is not None and gz:
        try:
            data = gzip.decompress(data)
        except Exception:  # pylint: disable=broad-except
            why, data = "the image is damaged", None
    if data is None:
        why = why or "no image"
    if dest == image or dest == name and ":" not in how:
        why = "it would overwrite its source"
    listed = None  # blocks which may be written
    if how != "none":
        if name is None or name not in before:
            why = why or "no bmap"
        else:
            bmap = valid_bmap(before[name])
            if bmap is None:
                why = why or "a bad bmap"
    if bmap is None:
        size = len(data) if data is not None else 0
        ranges = [[0, (size - 1) // BS]] if size else []
        if not gz and data is not None and not size:
            sure = False  # empty images
    else:
        size, ranges = bmap.image_size, [list(r) for r in bmap.ranges]
        if data is not None and size != len(data):
            if not gz or len(data) < size and any((b + 1) * BS > len(data) for _a, b in ranges):
                why = why or "a foreign bmap"
            else:
                sure = False
        if not why and verify and any(s and s != hashlib.new(bmap.cs_type, data[a * BS:(b + 1) * BS]).hexdigest() for (a, b), s in zip(ranges, bmap.chksums)):
            why = "other contents"
    if dest == DEVICE and size > dev.capacity:
        if gz and bmap is None:
            why = why or "it does not fit"
        else:
            why = why or "it does not fit at all"
    res = command(d, args, dev if dest == DEVICE else None, cut, tmp)
    after = slurp(d)
    check({k: v for k, v in before.items() if k != dest} == {k: v for k, v in after.items() if k != dest}, "%r: other files changed: %r", args,
          sorted(k for k in set(before) | set(after) if k != dest and before.get(k) != after.get(k)))
    if why:
        check(res.code != 0, "%r cannot succeed (%s): %r", args, why, res)
        if why.startswith("it would"):
            check(after.get(dest) == before.get(dest), "%r destroyed its source", args)
    elif sure and not cut:
        check(res.code == 0, "%r: %r", args, res)
    if dest == DEVICE:
        check(len(after[DEVICE]) == dev.capacity, "the device changed its size")
        # Even when it fails, nothing but listed blocks is written
        allowed = [] if why and why not in ("other contents", "it does not fit", "a foreign bmap", "the image is damaged") else ranges
        if why in ("a foreign bmap", "the image is damaged") or not sure:
            allowed = ranges if bmap else [[0, dev.capacity // BS]]
        old, new = bytearray(before[DEVICE]), bytearray(after[DEVICE])
        for a, b in allowed:
            old[a * BS:(b + 1) * BS] = new[a * BS:(b + 1) * BS] = b""[:0].ljust(max(0, min(len(old), (b + 1) * BS) - a * BS), b"\0")
        check(old == new, "%r (exit status %d, %s) wrote outside of %r", args, res.code, why, allowed)
    if res.code == 0 and not why and sure:
        base = before[DEVICE] if dest == DEVICE else b""
        want = expected(base, data, size, BS, ranges)
        if dest == DEVICE:
            want += base[size:]
        check_same(after[dest], want, "%r" % args, BS)
    labels.append("copy " + ("done" if res.code == 0 else "cut" if not why else "refused"))
    return res


def run(spec):
    d = util.scratch(spec["fs"])
    tmp = util.scratch("ext")
    dev = FakeBdev(d, spec["capacity"] * BS, b"\xc3" * (spec["capacity"] * BS))
    for op in spec["start"]:
        edit(d, op)
    labels = []
    good = 0
    for op, cut in spec["steps"]:
        if op[0] in ("create", "copy"):
            cut = [cut[0], getattr(signal, cut[1])] if cut else None
            if op[0] == "create":
                res = run_create(d, op, cut, tmp, labels)
            else:
                res = run_copy(d, op, cut, tmp, dev, labels)
            good += res.code == 0
            left = os.listdir(tmp)
            if res.code >= 0:
                check(not left, "%r left temporary files behind: %r", op, left)
            for name in left:
                os.unlink(os.path.join(tmp, name))
        else:
            edit(d, op)
    return Info(good >= 2, *sorted(set(labels)))


def steps_st():
    img = st.sampled_from(IMAGES)
    blk = st.one_of(gen.ints(0, 12), gen.ints(0, 40), st.sampled_from([255, 256, 257, 300, 510]))
    write = st.tuples(st.just("w"), img, blk, st.one_of(gen.ints(1, 8), st.sampled_from([300, 520])), gen.ints(0, 30))
    change = st.one_of(
        write,
        st.tuples(st.just("p"), img, blk, gen.ints(1, 20)),
        st.tuples(st.just("t"), img, gen.ints(0, 60), gen.tail_st()),
        write,
        st.tuples(st.just("gz"), img),
        st.tuples(st.just("gz"), img),
        st.tuples(st.just("mv"), img, img),
        st.tuples(st.just("rm"), st.sampled_from(BMAPS + IMAGES)),
        st.tuples(st.just("flip"), st.sampled_from(BMAPS + IMAGES), gen.ints(0, 10**5)))
    source = gen.weighted((5, img), (1, img.map(lambda i: i + ".gz")))
    create = st.tuples(st.just("create"), img, gen.weighted((6, st.sampled_from(BMAPS)), (1, img), (1, st.none())), gen.weighted((3, st.just(True)), (1, st.just(False))))
    copy = st.tuples(st.just("copy"), source, gen.weighted((3, st.just(DEVICE)), (3, st.just("out")), (4, img), (1, st.sampled_from(BMAPS))),
                     gen.weighted((5, st.just("found")), (1, st.just("none")), (1, st.sampled_from(BMAPS)), (1, st.sampled_from(BMAPS).map(lambda b: "url:" + b))),
                     gen.weighted((3, st.just(True)), (1, st.just(False))))
    # (most of a command is some hundred to some thousand calls)
    when = st.one_of(gen.ints(1, 400), gen.ints(1, 3000), gen.ints(100, 12000))
    cut = gen.weighted((3, st.none()), (2, st.tuples(when, st.sampled_from(["SIGKILL", "SIGINT", "SIGTERM"])).map(list)))
    # Usually an image gets its bmap and is copied
    pair = st.tuples(img, copy, cut, cut).map(lambda t: [[["create", t[0], t[0] + ".bmap", True], t[2]], [["copy", t[0]] + list(t[1])[2:3] + ["found", t[1][4]], t[3]]])
    # An image is copied, changed and copied again; two images are copied to the same place
    to = st.sampled_from(["out", "out", DEVICE])
    punch = st.tuples(st.just("p"), img, blk, gen.ints(1, 20))
    redo = st.tuples(img, to, punch, cut).map(lambda t: [[["create", t[0], t[0] + ".bmap", True], None], [["copy", t[0], t[1], "found", True], None], [["p", t[0]] + list(t[2])[2:], None],
                                                         [["create", t[0], t[0] + ".bmap", True], None], [["copy", t[0], t[1], "found", True], t[3]]])
    two = st.tuples(img, img, to).map(lambda t: [s for i in t[:2] for s in ([["create", i, i + ".bmap", True], None], [["copy", i, t[2], "found", True], None])])
    again = st.tuples(copy, cut).map(lambda t: [[list(t[0]), t[1]], [list(t[0]), None]])
    one = lambda s: s.map(lambda o: [[list(o), None]])
    both = lambda s: st.tuples(s, cut).map(lambda t: [[list(t[0]), t[1]]])
    return st.lists(gen.weighted((3, pair), (2, redo), (2, two), (2, again), (2, both(create)), (3, both(copy)), (4, one(change))), min_size=2, max_size=9).map(lambda l: [s for group in l for s in group]), write


def case_st():
    steps, write = steps_st()
    start = st.lists(write.map(list), min_size=1, max_size=5).map(lambda l: [["w", i, 0, 1, 3] for i in IMAGES] + l)
    # (images are often of one size)
    size = st.tuples(st.sampled_from([13, 40, 300, 520]), gen.tail_st()).map(lambda t: [["t", i] + list(t) for i in IMAGES])
    start = st.tuples(start, gen.weighted((2, size), (1, st.just([])))).map(lambda t: t[0] + t[1])
    ready = [[["create", i, i + ".bmap", True], None] for i in IMAGES]
    prefix = gen.weighted((1, st.just([])), (3, st.just(ready + [[["gz", i], None] for i in IMAGES[:2]])))
    steps = st.tuples(prefix, steps).map(lambda t: t[0] + t[1])
    return st.fixed_dictionaries({"fs": st.sampled_from(["ext", "shm"]), "capacity": st.sampled_from([600, 1000, 20, 64]), "start": start, "steps": steps})


PROPERTY = Property(
    "L05",
    "histories of up to 21 commands on three images, their compressed forms and bmaps, and a stand-in device: creations and copies (also onto each other's files), of which some are killed, terminated or interrupted at a "
    "chosen call, some repeated, with changes by the user between them. Non-trivial: at least two commands succeeded.",
    [Facet("history", case_st, run, quick=400, thorough=10000, shards=6, timeout=120, noise="v")],
    ["the device is a stand-in (see B01)"],
)
