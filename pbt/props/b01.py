"""B01: writing to a block device is guarded, exclusive and bounded."""

import errno
import os

from hypothesis import strategies as st

from pbt import bdev, comp, gen, util
from pbt.copyh import bmap_file, check_inside, check_same, do_copy, image_content, run_recorded_cli
from pbt.core import Facet, Info, Property
from pbt.util import MemImage, build_bmap, check, content

MB = 1 << 20
FEW = 8 * MB


def large_g():
    """Tens of megabytes of mapped data in few or many ranges."""
    return st.tuples(
        st.sampled_from([4096, 4096, 512, 1000, 65536, MB, 2 * MB, 3 * MB, 5 * MB]), gen.ints(7, 30), st.sampled_from([0, 0, 1, 3]), gen.ints(1, 5000),
        st.sampled_from(["1.2", "1.3", "1.4", "2.0"]), gen.ints(0, 5000)).map(make_large)


def make_large(t):
    bs, mib, gap, run, version, tail = t
    nblk = max(mib * MB // bs, 2)
    size = nblk * bs - tail % bs
    ranges = []
    pos = 0
    if not gap:
        ranges = [[0, nblk - 1]]
    else:
        run = max(run, nblk // 800)
        while pos < nblk:
            ranges.append([pos, min(pos + run - 1, nblk - 1)])
            pos += run + gap
    return {"bs": bs, "size": size, "ranges": ranges, "version": version, "style": 0}


def check_device(dev, old, image, g_bs, size, ranges):
    want = bytearray(old)
    for a, b in ranges:
        s, e = a * g_bs, min((b + 1) * g_bs, size)
        want[s:e] = image[s:e]
    check_same(dev.contents(), bytes(want), "the device", g_bs)


def bounds(max_unsynced, bs):
    batch = max(MB // bs, 1) * bs
    check(max_unsynced <= FEW + batch, "%d bytes were written without a synchronization (a batch is %d)", max_unsynced, batch)


def run(spec):
    util.patch_os()
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch("shm")
    image = content(spec["img"], size)
    bmap = build_bmap(g["version"], size, bs, ranges, image if spec["chk"] else None, style=g["style"]) if spec["bmap"] else None
    if not bmap:
        bs, ranges = 4096, [[0, (size - 1) // 4096]]
    declared = size if spec["declare"] else None
    capacity = max(size + spec["room"], 0)
    old = util.fast_pattern(21, capacity)
    dev = bdev.FakeBdev(d, capacity, old)
    if spec["syncfail"] is not None:
        dev.rec.faults["sync"] = {spec["syncfail"]: util.oserror(errno.EIO)}
    stage = []
    with dev:
        dest = open(dev.path, "wb")
        dev.rec.events.clear()
        out = do_copy(MemImage(image), dest, bmap_file(d, bmap) if bmap else None, declared, spec["sync"], spec["verify"], bdev=True, stage=stage)
        dev.rec.faults.clear()
        try:
            dest.close()
        except OSError:
            pass
    resized = [e for e in dev.rec.events if e[0] == "truncate"]
    check(not resized, "the device was resized: %r", resized)
    check_inside(dev.rec, size, bs, ranges)
    bounds(dev.rec.max_unsynced, bs)
    lab = ["bmap" if bmap else "no bmap"]
    if capacity < size:
        check(out.kind != "ok", "the image has %d bytes and the device %d, but the copy succeeded", size, capacity)
        if bmap or declared:
            check(not dev.rec.total_written, "%d bytes were written though the image does not fit", dev.rec.total_written)
            check(out.kind == "error", "the image does not fit, but: %r", out)
            check(dev.contents() == old, "the device was changed though the image does not fit")
            lab.append("does not fit, known")
        else:
            lab.append("does not fit, unknown")
        return Info(True, *lab)
    if any(k == "sync" for k, _ in dev.rec.triggered):
        check(out.kind != "ok", "a synchronization failed, but the copy succeeded")
        return Info(True, "synchronization failed", *lab)
    check(out.kind == "ok", "the copy gave %r", out)
    check_device(dev, old, image, bs, size, ranges)
    mapped = sum(b - a + 1 for a, b in ranges) * bs
    nsync = len([e for e in dev.rec.events if e[0] == "sync"])
    if capacity == size:
        lab.append("fits exactly")
    lab.append("synchronized %s times" % (nsync if nsync < 2 else "several"))
    return Info(mapped > FEW or capacity - size < 4096, *lab)


def strategy():
    return st.fixed_dictionaries({
        "g": gen.weighted((1, large_g()), (2, gen.geometry(nonempty=True))),
        "img": image_content,
        "bmap": gen.weighted((3, st.just(True)), (1, st.just(False))),
        "declare": st.booleans(), "chk": st.booleans(), "verify": st.booleans(), "sync": st.booleans(),
        "room": gen.weighted((3, st.sampled_from([0, 1, 4096, 100000])), (2, st.sampled_from([-1, -2, -511, -512, -4096, -100000, -(20 << 20)]))),
        "syncfail": gen.weighted((6, st.none()), (1, gen.ints(0, 3))),
    })


def run_holes(spec):
    """Much data around holes of up to terabytes; image and device are sparse files."""
    util.patch_os()
    bs = spec["bs"]
    d = util.scratch("shm")
    ranges = []
    pos = 0
    for gap, run in spec["steps"]:
        first = pos + gap // bs + 1
        last = first + max(run // bs, 1) - 1
        ranges.append([first, last])
        pos = last + 1
    nblk = pos + spec["after"] // bs
    size = nblk * bs
    path = os.path.join(d, "image")
    with open(path, "wb") as f:
        for i, (a, b) in enumerate(ranges):
            f.seek(a * bs)
            f.write(util.fast_pattern(i, (b - a + 1) * bs))
        f.truncate(size)
    bmap = build_bmap(spec["version"], size, bs, ranges)
    dev = bdev.FakeBdev(d, size)
    with dev:
        dest = open(dev.path, "wb")
        dev.rec.events.clear()
        with open(path, "rb") as image:
            out = do_copy(image, dest, bmap_file(d, bmap), None, spec["sync"], True, bdev=True)
        dest.close()
    check(out.kind == "ok", "the copy gave %r", out)
    check_inside(dev.rec, size, bs, ranges)
    bounds(dev.rec.max_unsynced, bs)
    with open(dev.path, "rb") as f:
        for i, (a, b) in enumerate(ranges):
            f.seek(a * bs)
            check_same(f.read((b - a + 1) * bs), util.fast_pattern(i, (b - a + 1) * bs), "blocks %d-%d of the device" % (a, b), bs)
    total = sum(b - a + 1 for a, b in ranges) * bs
    return Info(total > FEW, "data of %d MiB and more" % (total // FEW * 8), "holes of %s" % ("gigabytes" if nblk * bs > 1 << 31 else "megabytes"))


def holes_st():
    gap = gen.weighted((2, st.just(0)), (2, gen.ints(0, 40 * MB)), (2, gen.ints(0, 1 << 42)))
    run = gen.weighted((1, gen.ints(1, MB)), (3, gen.ints(MB, 16 * MB)))
    return st.fixed_dictionaries({
        "bs": st.sampled_from([4096, 4096, 512, 65536, MB, 3 * MB]), "steps": st.lists(st.tuples(gap, run).map(list), min_size=2, max_size=4),
        "after": gap, "version": st.sampled_from(["1.2", "1.3", "2.0"]), "sync": st.booleans()})


def run_cli(spec):
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch("shm")
    image = content(spec["img"], size)
    name = "i.img" + (".gz" if spec["gz"] else "")
    with open(os.path.join(d, name), "wb") as f:
        f.write(comp.pack("gz", image, d) if spec["gz"] else image)
    if spec["bmap"]:
        with open(os.path.join(d, "i.img.bmap"), "wb") as f:
            f.write(build_bmap(g["version"], size, bs, ranges, image, style=g["style"]))
    else:
        bs, ranges = 4096, [[0, (size - 1) // 4096]]
    capacity = max(size + spec["room"], 0)
    old = util.fast_pattern(22, capacity)
    dev = bdev.FakeBdev(d, capacity, old, excl_error=spec["busy"], partition=spec["part"])
    dst = dev.path
    if spec["link"]:
        dst = os.path.join(d, "by-id")
        os.symlink(dev.path, dst)
    args = ["copy"] + ([] if spec["bmap"] else ["--nobmap"]) + [name, dst]
    res, rep = run_recorded_cli(args, d, dst, dev)
    check(rep is not None, "no report: %r", res)
    resized = [e for e in rep["events"] if e[0] == "truncate"]
    check(not resized, "the device was resized: %r", resized)
    if spec["busy"]:
        check(res.code > 0, "the device is in use, but: %r", res)
        check(not rep["total"] and dev.contents() == old, "the device is in use, but %d bytes were written", rep["total"])
        check(res.err.strip(), "there is no message")
        return Info(True, "device in use")
    excl = [o for o in rep["opens"] if o[1] & os.O_EXCL]
    check(excl or not rep["total"], "the device was not opened exclusively: %r", rep["opens"])
    if excl:
        check(not [o for o in excl if o[1] & (os.O_CREAT | os.O_TRUNC)], "the device was opened with %r", excl)
    bounds(rep["max_unsynced"], bs)
    if capacity < size:
        check(res.code > 0, "the image has %d bytes and the device %d, but: %r", size, capacity, res)
        if spec["bmap"] or not spec["gz"]:
            check(not rep["total"] and dev.contents() == old, "%d bytes were written though the image does not fit", rep["total"])
        return Info(True, "does not fit")
    check(res.code == 0, "the copy failed: %r", res)
    check_device(dev, old, image, bs, size, ranges)
    return Info(True, "written", "large" if size > FEW else "small", "via a link" if spec["link"] else "direct")


def cli_st():
    return st.fixed_dictionaries({
        "g": gen.weighted((1, large_g()), (3, gen.geometry(nonempty=True))), "img": image_content, "bmap": gen.weighted((3, st.just(True)), (1, st.just(False))),
        "gz": gen.weighted((3, st.just(False)), (1, st.just(True))),
        "room": gen.weighted((3, st.sampled_from([0, 1, 5000])), (1, st.sampled_from([-1, -4096, -100000]))),
        "busy": gen.weighted((4, st.just(0)), (1, st.sampled_from([errno.EBUSY, errno.EACCES, errno.EROFS]))), "part": st.booleans(), "link": st.booleans()})


_L = {"img": {"kind": "rand", "seed": 1}, "bmap": True, "declare": False, "chk": False, "verify": True, "sync": True, "room": 0, "syncfail": None}
CORNER = [dict(_L, g=make_large((bs, 25, gap, run, "2.0", 5))) for bs, gap, run in ((4096, 0, 1), (512, 0, 1), (65536, 1, 3), (MB, 0, 1), (4096, 1, 256), (4096, 1, 30))]
CORNER += [dict(_L, g=make_large((4096, 25, 0, 1, "2.0", 5)), bmap=False), dict(_L, g=make_large((4096, 25, 0, 1, "2.0", 5)), bmap=False, declare=True)]

PROPERTY = Property(
    "B01",
    "Copies of small images and of images of up to 30 MiB (several synchronization intervals, block sizes 512 bytes to 5 MiB, few or thousands of ranges) to a stand-in for a block device "
    "(a file whose stat data say so; opens, writes, resizes and synchronizations recorded, capacity enforced), also with holes of up to terabytes, with capacities around the image size and failing synchronizations; through "
    "the class and the command line (device busy, partitions, symbolic links, compressed images); non-trivial: more data than the bound, or a capacity within a block of the image size, "
    "or a refusal.",
    [Facet("device", strategy, run, quick=900, thorough=12000, shards=6, corner=CORNER),
     Facet("holes", holes_st, run_holes, quick=160, thorough=2500, shards=4),
     Facet("cli", cli_st, run_cli, quick=160, thorough=2500, shards=2, noise="vspn")],
    ["the stand-in behaves like a block device in all respects the code can see", "'a few MiB' is 8 MiB; block sizes up to 6 MiB"],
)
