"""C01: the block map covers all data and no never-allocated hole."""

import contextlib
import errno
import fcntl
import io
import os

from hypothesis import strategies as st

from pbt import fiemap, fsblock, gen, util
from pbt.core import Facet, Info, Property, Skip, Violation
from pbt.util import Bmap, Intervals, check, pattern

FIEMAP = 0xC020660B


@contextlib.contextmanager
def no_fiemap(num):
    """Pretend that the file system has no extent-map ioctl."""
    from bmaptools import BmapCreate  # noqa: F401  pylint: disable=unused-import,import-outside-toplevel

    real = fcntl.ioctl

    def fake(fd, request, *args):
        if request & 0xFFFFFFFF == FIEMAP:
            raise OSError(num, os.strerror(num))
        return real(fd, request, *args)

    fcntl.ioctl = fake
    try:
        yield
    finally:
        fcntl.ioctl = real


@contextlib.contextmanager
def method_scope(spec):
    how = spec.get("method", "native")
    with fsblock.fs_block(spec.get("bs"), spec.get("bs_how", "ioctl")):
        if how == "scripted":
            with fiemap.scripted(spec["fm"], spec.get("bs") or gen.BS):
                yield
        # (extents are made of whole blocks)
        elif how == "native" and (spec.get("bs") or 0) <= gen.BS:
            yield
        else:
            with no_fiemap(errno.ENOTTY if how == "notty" else errno.EOPNOTSUPP):
                yield


def bs_st():
    """Block size of the file system and how to find it out."""
    return gen.weighted((5, st.just([None, "ioctl"])), (3, st.tuples(st.sampled_from([512, 1024, 2048, 8192, 16384, 65536, 1 << 18, 1 << 20, 1 << 22, 3 * 4096]),
                                                                    st.sampled_from(["ioctl", "stat", "zero"])).map(list)))


def fm_st():
    """What the extents of the stand-in for the ioctl look like, see pbt/fiemap.py."""
    return st.fixed_dictionaries({"piece": gen.weighted((2, st.just(0)), (2, gen.ints(1, 9)), (1, st.just(300))), "shift": st.sampled_from([0, 0, 512, 1, 4095, 2048]), "trim": st.booleans(),
                                  "clip": st.booleans(), "flags": gen.weighted((1, st.just(0)), (2, gen.ints(1, 999))), "beyond": gen.weighted((2, st.just(0)), (1, gen.ints(1, 5)))})


def truth(img, bs):
    """-> (blocks which hold a non-zero byte, blocks which are holes and never were anything else), as spans."""
    nonzero = img.nonzero_blocks().spans
    size = img.size
    count = (size + bs - 1) // bs
    if bs < gen.BS:
        fine = Intervals()
        with open(img.path, "rb") as f:
            for a, b in nonzero:
                for pos in range(a * gen.BS, min(b * gen.BS, size), bs):
                    if os.pread(f.fileno(), bs, pos).strip(b"\0"):
                        fine.add(pos // bs, pos // bs + 1)
        nonzero = fine.spans
    elif bs > gen.BS:
        coarse = Intervals()
        for a, b in nonzero:
            coarse.add(a * gen.BS // bs, (min(b * gen.BS, size) + bs - 1) // bs)
        nonzero = coarse.spans
    # (bytes)
    untouched = _minus([(0, size)], [(a * gen.BS, b * gen.BS) for a, b in img.touched.spans])
    holes = _intersect(untouched, util.holes_by_seek(img.path))
    never = [((a + bs - 1) // bs, b // bs if b < size else count) for a, b in holes]
    return nonzero, [(a, b) for a, b in never if a < b]


class NamedStringIO(io.StringIO):
    name = "generated.bmap"


def between(spec, size):
    blk, into, _ = spec["pending"]
    return min((size // gen.BS if blk is None else blk) * gen.BS + into, max(size - 1, 0))


def create(path, d, spec):
    """Generate the bmap for the image at 'path' the way 'spec' says. -> bytes"""
    from bmaptools import BmapCreate

    api = spec.get("api", "path")
    cs = spec.get("cs", "sha256")
    chk = spec.get("chk", True)
    out = os.path.join(d, "out.bmap")
    if api == "path":
        creator = BmapCreate.BmapCreate(path, out, cs)
        creator.generate(chk)
        del creator
        with open(out, "rb") as f:
            return f.read()
    if api == "obj":
        with open(path, "rb") as fi, open(out, "w+") as fo:
            if spec.get("preread"):
                fi.read(spec["preread"])
            creator = BmapCreate.BmapCreate(fi, fo, cs)
            creator.generate(chk)
        with open(out, "rb") as f:
            return f.read()
    if api == "pending":
        # The last write is still in the buffer of the file object
        blk, into, length = spec["pending"]
        size = os.path.getsize(path)
        with open(path, "rb+") as fi, open(out, "w+") as fo:
            where = (size if blk is None else min(blk * gen.BS, size)) + into
            fi.seek(where)
            fi.write(pattern("pending", length))
            creator = BmapCreate.BmapCreate(fi, fo, cs)
            creator.generate(chk)
            check(fi.tell() == where + length, "the position changed from %d to %d", where + length, fi.tell())
        with open(out, "rb") as f:
            return f.read()
    if api == "between":
        # Something is written after the creator was made
        blk, into, length = spec["pending"]
        size = os.path.getsize(path)
        creator = BmapCreate.BmapCreate(path, out, cs)
        where = between(spec, size)
        with open(path, "rb+") as f:
            f.seek(where)
            f.write(pattern("pending", length)[:size - where])
        creator.generate(chk)
        del creator
        with open(out, "rb") as f:
            return f.read()
    if api == "cli":
        args = ["create", "-o", out, path] + ([] if chk else ["--no-checksum"])
        res = util.run_cli(args, d)
        check(res.code == 0, "creating the bmap failed: %r", res)
        with open(out, "rb") as f:
            return f.read()
    if api == "stdout":
        res = util.run_cli(["create", path] + ([] if chk else ["--no-checksum"]), d)
        check(res.code == 0, "creating the bmap failed: %r", res)
        return res.out
    raise AssertionError(api)


def setup_image(spec):
    d = util.scratch(spec["img"]["fs"])
    img = gen.build_image(spec["img"], d)
    return d, img


def check_map(img, ranges, block_size, bs=gen.BS):
    check(block_size == bs, "block size %d, the file system has %d", block_size, bs)
    listed = Intervals()
    listed.spans = sorted((a, b + 1) for a, b in ranges)
    # merge
    merged = []
    for a, b in listed.spans:
        if merged and a <= merged[-1][1]:
            merged[-1] = (merged[-1][0], max(merged[-1][1], b))
        else:
            merged.append((a, b))
    listed.spans = merged
    nonzero, never = truth(img, bs)
    missing = [(a, b) for a, b in _minus(nonzero, listed.spans)]
    check(not missing, "blocks with data are not listed: %r (listed %r)", missing[:5], listed.spans[:8])
    # Never touched, and the kernel says they are holes
    wrong = _intersect(never, listed.spans)
    check(not wrong, "holes are listed: %r (listed %r)", wrong[:5], listed.spans[:8])
    return nonzero, listed, never


def _minus(a, b):
    out = []
    j = 0
    for x, y in a:
        while j < len(b) and b[j][1] <= x:
            j += 1
        k = j
        while x < y:
            if k >= len(b) or b[k][0] >= y:
                out.append((x, y))
                break
            if b[k][0] > x:
                out.append((x, b[k][0]))
            x = max(x, b[k][1])
            k += 1
    return out


def _intersect(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo < hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return out


def labels(spec, img, nonzero, listed):
    result = ["fs:" + spec["img"]["fs"], "method:" + spec.get("method", "native"), "api:" + spec.get("api", "path")]
    if img.size % gen.BS:
        result.append("unaligned size")
    if spec.get("late"):
        result.append("mapped when synchronized")
    if spec.get("bs"):
        result.append("block size " + ("smaller" if spec["bs"] < gen.BS else "larger") + " than that of holes")
    if len(listed.spans) > 4681:
        result.append("more extents than one call returns")
    if img.nblk > 1 << 18:
        result.append("huge")
    if any(o[0] in "fk" for o in spec["img"]["ops"]):
        result.append("preallocated")
    if any(o[0] == "p" for o in spec["img"]["ops"]):
        result.append("punched")
    if listed.spans and listed.spans[-1][1] == img.nblk:
        result.append("data at the end")
    return result


def run(spec):
    d, img = setup_image(spec)
    old_size = img.size
    if spec["method"] == "scripted" and img.nblk > 1 << 20 and spec["fm"]["piece"]:
        spec = dict(spec, fm=dict(spec["fm"], piece=300))
    if spec["method"] == "native" and spec["img"]["fs"] == "ext" and not util.fiemap_supported(img.path):
        spec = dict(spec, method="seek")
    with contextlib.ExitStack() as scope:
        scope.enter_context(method_scope(spec))
        if spec.get("late") and (spec.get("api") != "between" or spec["method"] == "scripted"):
            # (after the stand-in for the ioctl, which asks it)
            if spec["method"] == "native" and spec["img"]["fs"] == "ext":
                scope.enter_context(no_fiemap(errno.EOPNOTSUPP))
            scope.enter_context(fiemap.late(img.path))
        data = create(img.path, d, spec)
    if spec.get("api") == "pending":
        end = os.path.getsize(img.path)
        img.size, img.nblk = max(end, img.size), (max(end, img.size) + gen.BS - 1) // gen.BS
        blk, into, length = spec["pending"]
        start = (old_size if blk is None else min(blk * gen.BS, old_size)) + into
        for a, b in img.beyond + [(start // gen.BS, (start + length - 1) // gen.BS + 1)]:
            img.touched.add(a, b)
        img.touched = img.touched.clip(0, img.nblk)
        check(end == max(old_size, start + length), "the image has %d bytes instead of %d", end, max(old_size, start + length))
    if spec.get("api") == "between" and img.size:
        start = between(spec, img.size)
        img.touched.add(start // gen.BS, (min(start + spec["pending"][2], img.size) - 1) // gen.BS + 1)
    bmap = Bmap(data)
    check(bmap.image_size == img.size, "image size %d, should be %d", bmap.image_size, img.size)
    nonzero, listed, never = check_map(img, bmap.ranges, bmap.block_size, spec.get("bs") or gen.BS)
    return Info(bool(nonzero) and bool(never), *labels(spec, img, nonzero, listed))


def strategy():
    return st.fixed_dictionaries({
        "img": gen.sparse_image(),
        "method": gen.weighted((4, st.just("native")), (1, st.sampled_from(["seek", "notty"])), (2, st.just("scripted"))),
        "fm": fm_st(),
        "api": gen.weighted((3, st.just("path")), (2, st.just("obj")), (1, st.just("cli")), (1, st.just("stdout")), (1, st.just("pending")), (1, st.just("between"))),
        "pending": st.tuples(gen.weighted((2, st.none()), (1, gen.ints(0, 100))), st.sampled_from([0, 1, 4095, 4096, 70000]), gen.weighted((2, gen.ints(1, 8000)), (1, st.just(20000)))).map(list),
        "chk": st.booleans(),
        "preread": st.sampled_from([0, 10, 5000]),
        "block": bs_st(), "late": gen.weighted((3, st.just(False)), (1, st.just(True))),
    }).map(set_block)


def set_block(spec):
    spec = dict(spec)
    spec["bs"], spec["bs_how"] = spec.pop("block")
    return spec


CORNER = []
for _fs in ("ext", "shm"):
    for _img in (
        {"nblk": 1, "tail": 4095, "ops": [["b", 0, 0, 1]]},
        {"nblk": 1, "tail": 0, "ops": []},
        {"nblk": 3, "tail": 100, "ops": [["b", 2, 3990, 4]]},
        {"nblk": 3, "tail": 100, "ops": [["w", 0, 1, 0]]},
        {"nblk": 20000, "tail": 7, "ops": [["comb", 0, 9500, 2], ["w", 19999, 1, 1]]},
        {"nblk": 9363, "tail": 0, "ops": [["comb", 0, 4681, 2]]},
        {"nblk": 9365, "tail": 0, "ops": [["comb", 1, 4682, 2]]},
        {"nblk": 2 ** 28, "tail": 1, "ops": [["w", 2 ** 28 - 1, 1, 0], ["w", 2 ** 27, 2, 0], ["w", 1048575, 2, 1]]},
        {"nblk": 64, "tail": 0, "ops": [["k", 60, 20], ["w", 3, 3, 0]]},
        {"nblk": 64, "tail": 9, "ops": [["f", 10, 20], ["w", 12, 3, 0], ["p", 20, 5]]},
    ):
        for _m in ("native", "seek"):
            if _fs == "shm" and _m == "seek":
                continue
            CORNER.append({"img": dict(_img, fs=_fs), "method": _m, "api": "path", "chk": False})

PROPERTY = Property(
    "C01",
    "Sparse images are built by random histories of writes, zero writes, preallocation and hole punching (plus combs of up to "
    "9500 extents and files of up to 1 TiB) on a disk file system (extent-map ioctl, with the ioctl masked so that hole seeking is used, or with a stand-in whose extents are split anywhere, not made of whole blocks and have all kinds of flags; also file systems which show data only once they are synchronized) and "
    "on tmpfs, and block sizes of file systems from 512 bytes to 1 MiB; non-trivial: the image has at least one block with data and at least one never-allocated hole.",
    [Facet("map", strategy, run, quick=1200, thorough=20000, shards=8, corner=CORNER, noise="v")],
    ["the scratch file systems report holes truthfully (the harness's own hole walk agrees with its record of writes)",
     "other block sizes than 4096 are simulated at the system-call level (the ioctl, or stat() where there is none)"],
)
