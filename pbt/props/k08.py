"""K08: a synchronized copy is durable when it reports success."""

import errno
import os

from hypothesis import strategies as st

from pbt import bdev, gen, util
from pbt.copyh import bmap_file, check_same, do_copy, expected, image_content, run_recorded_cli, snapshot
from pbt.core import Facet, Info, Property
from pbt.props.k01 import make_image
from pbt.util import Recorder, build_bmap, check, content


def durable(events, snap, old, final, what):
    """
    'snap' is the contents at the last synchronization (None: there was none),
    'final' the contents in the end, 'old' the contents before.
    """
    last = max([i for i, e in enumerate(events) if e[0] == "sync"], default=-1)
    late = [e for e in events[last + 1:] if e[0] == "write"]
    if last < 0:
        check(not late and old == final, "%s, but the destination was never synchronized (%r)", what, late[:3])
        return
    check(not late, "%s, but %r was written after the last synchronization", what, late[:3])
    check(len(snap) == len(final), "%s, but the destination had %d bytes at the last synchronization and %d in the end", what, len(snap), len(final))
    check_same(snap, final, "%s; the destination as synchronized" % what, 4096)


def run(spec):
    util.patch_os()
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch("shm")
    image = content(spec["img"], size)
    bmap = build_bmap(g["version"], size, bs, ranges, image, style=g["style"]) if spec["bmap"] else None
    if not spec["bmap"]:
        bs, ranges = 4096, [[0, (size - 1) // 4096]]
    src = make_image(spec, d, image)
    f = bmap_file(d, bmap) if bmap else None
    declared = size if spec["declare"] else None
    old = util.fast_pattern(7, spec["old"])
    sync_arg = spec["how"] != "later"

    def finish(out):
        if out.kind == "ok" and spec["how"] != "copy":
            from bmaptools import BmapCopy

            try:
                out.writer.sync()
            except BmapCopy.Error as exc:
                out.kind, out.exc = "error", exc

    if spec["dest"] == "dev":
        old = util.fast_pattern(7, size + spec["old"])
        dev = bdev.FakeBdev(d, len(old), old)
        rec = dev.rec
        rec.snap = lambda: snapshot(rec, dev.path)
        with dev:
            dest = open(dev.path, "wb")
            out = do_copy(src, dest, f, declared, sync_arg, spec["verify"], bdev=True)
            finish(out)
            dest.close()
        final = dev.contents()
    else:
        path = os.path.join(d, "dest")
        with open(path, "wb") as o:
            o.write(old)
        rec = Recorder()
        rec.snap = lambda: snapshot(rec, path)
        mode = {"rw": "wb+", "w": "wb", "inplace": "rb+"}[spec["dest"]]
        dest = util.open_dest(path, rec, mode)
        if mode != "rb+":
            old = b""
        out = do_copy(src, dest, f, declared, sync_arg, spec["verify"])
        finish(out)
        dest.close()
        with open(path, "rb") as o:
            final = o.read()
    check(out.kind == "ok", "the copy gave %r", out)
    durable(rec.events, getattr(rec, "last_snap", None), old, final, "the copy was reported as success")
    if spec["dest"] != "dev":
        check_same(final, expected(old, image, size, bs, ranges), "the destination", bs)
    nsync = len([e for e in rec.events if e[0] == "sync"])
    return Info(rec.total_written > 0, "dest " + spec["dest"], "sync " + spec["how"], "bmap" if bmap else "no bmap",
                "%s synchronization(s)" % (nsync if nsync < 3 else "several"))


def strategy():
    return st.fixed_dictionaries({
        "g": gen.geometry(nonempty=True), "img": image_content,
        "bmap": gen.weighted((3, st.just(True)), (1, st.just(False))),
        "src": st.sampled_from(["mem", "file", "trans"]),
        "declare": st.booleans(), "verify": st.booleans(),
        "old": st.sampled_from([0, 1, 5000, 4 << 20]),
        "how": st.sampled_from(["copy", "later", "both"]),
        "dest": gen.weighted((2, st.just("rw")), (1, st.just("w")), (2, st.just("inplace")), (2, st.just("dev"))),
    })


def run_cli(spec):
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch("shm")
    image = content(spec["img"], size)
    with open(os.path.join(d, "i.img"), "wb") as f:
        f.write(image)
    if spec["bmap"]:
        with open(os.path.join(d, "i.img.bmap"), "wb") as f:
            f.write(build_bmap(g["version"], size, bs, ranges, image, style=g["style"]))
    args = ["copy"] + ([] if spec["bmap"] else ["--nobmap"])
    if spec["dest"] == "null":
        # Cannot be synchronized, must not fail because of that
        res = util.run_cli(args + ["i.img", "/dev/null"], d)
        check(res.code == 0, "copying to the null device failed: %r", res)
        return Info(True, "null device")
    dst = os.path.join(d, "out")
    dev = None
    old = b""
    if spec["dest"] == "dev":
        old = util.fast_pattern(7, size + spec["old"])
        dev = bdev.FakeBdev(d, len(old), old)
        dst = dev.path
    elif spec["old"]:
        with open(dst, "wb") as f:
            f.write(util.fast_pattern(7, spec["old"]))
    faults = None
    if spec["fail"] is not None:
        faults = {"sync": {spec["fail"]: util.oserror(errno.EIO)}}
    res, rep = run_recorded_cli(args + ["i.img", dst], d, dst, dev, faults=faults)
    check(rep is not None, "no report: %r", res)
    if rep["triggered"]:
        check(res.code != 0, "a synchronization failed, but: %r", res)
        return Info(True, "synchronization failed")
    check(res.code == 0, "the copy failed: %r", res)
    with open(dst, "rb") as f:
        final = f.read()
    snap = bytes.fromhex(rep["snap"]) if rep["snap"] is not None else None
    durable(rep["events"], snap, old, final, "the tool exited with status 0")
    return Info(rep["total"] > 0, "dest " + spec["dest"], "bmap" if spec["bmap"] else "no bmap")


def cli_st():
    return st.fixed_dictionaries({
        "g": gen.geometry(max_bytes=2 << 20, nonempty=True), "img": image_content, "bmap": gen.weighted((3, st.just(True)), (1, st.just(False))),
        "old": st.sampled_from([0, 1, 3 << 20]),
        "dest": gen.weighted((4, st.just("file")), (3, st.just("dev")), (1, st.just("null"))),
        "fail": gen.weighted((4, st.none()), (1, gen.ints(0, 1))),
    })


def run_null(spec):
    """The null device through the classes."""
    from bmaptools import BmapCopy

    size = spec["size"]
    image = content({"seed": 1}, size)
    d = util.scratch("shm")
    path = "/dev/null"
    if spec["link"]:
        path = os.path.join(d, "link")
        os.symlink("/dev/null", path)
    dest = open(path, spec["mode"])
    data = build_bmap("2.0", size, 4096, [[0, (size - 1) // 4096]], image) if spec["bmap"] else None
    out = do_copy(util.MemImage(image), dest, bmap_file(d, data) if data else None, size if spec["declare"] else None, True, True)
    check(out.kind == "ok", "copying to the null device gave %r", out)
    try:
        out.writer.sync()
    except BmapCopy.Error as exc:
        check(False, "synchronizing the null device gave %s", exc)
    dest.close()
    return Info(True, "bmap" if data else "no bmap")


def null_st():
    return st.fixed_dictionaries({"size": gen.ints(1, 3 << 20), "link": st.booleans(), "mode": st.sampled_from(["wb", "wb+", "rb+"]), "bmap": st.booleans(), "declare": st.booleans()})


PROPERTY = Property(
    "K08",
    "Copies with generated geometries to files and devices whose raw writes, resizes and synchronizations are recorded; at every synchronization the contents the operating system has "
    "are photographed: after success no write may follow the last one, and the last photograph must equal the final contents and size (what a power cut right after the report would leave); "
    "through the classes (synchronizing copy, later sync(), both) and the command line, with failing synchronizations, and the null device; non-trivial: something was written.",
    [Facet("durable", strategy, run, quick=1200, thorough=20000, shards=5),
     Facet("cli", cli_st, run_cli, quick=240, thorough=4000, shards=2, noise="vspn"),
     Facet("null", null_st, run_null, quick=80, thorough=1000, shards=1)],
    ["fsync() and fdatasync() make what the operating system has been handed durable"],
)
