"""K01: copying with a bmap reproduces mapped blocks and touches nothing else."""

import os

from hypothesis import strategies as st

from pbt import bdev, gen, util
from pbt.copyh import (bmap_file, check_inside, check_same, do_copy, expected, image_content)
from pbt.core import Facet, Info, Property
from pbt.util import MemImage, Recorder, build_bmap, check, content


def labels(g):
    bs, ranges = g["bs"], g["ranges"]
    batch = max((1 << 20) // bs, 1)
    lab = ["version " + g["version"]]
    lab.append("bs %s" % ("4096" if bs == 4096 else "<4096" if bs < 4096 else "<=1M" if bs <= 1 << 20 else ">1M"))
    if bs & (bs - 1):
        lab.append("odd block size")
    if g["size"] % bs:
        lab.append("unaligned size")
    for a, b in ranges:
        n = b - a + 1
        if n > batch:
            lab.append("range over several batches")
        if n % batch == 0:
            lab.append("range of whole batches")
        if n == 1:
            lab.append("single block")
    nblk = (g["size"] + bs - 1) // bs
    if ranges and ranges[-1][1] == nblk - 1:
        lab.append("last block mapped")
    if any(y[0] == x[1] + 1 for x, y in zip(ranges, ranges[1:])):
        lab.append("adjacent ranges")
    return sorted(set(lab))


def make_image(spec, d, data):
    """The image object the copier reads from."""
    src = spec["src"]
    if src == "mem":
        return MemImage(data)
    path = os.path.join(d, "src.img")
    with open(path, "wb") as f:
        f.write(data)
    if src == "file":
        f = open(path, "rb")
        util.at_case_end(f.close)
        return f
    from bmaptools import TransRead

    f = TransRead.TransRead(path)
    util.at_case_end(f.close)
    return f


def run(spec):
    util.patch_os()
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch(spec["fs"])
    image = content(spec["img"], size)
    bmap_bytes = build_bmap(g["version"], size, bs, ranges, image if spec["chk"] else None, cs_type=spec["cs"], style=g["style"])
    data = image
    if spec["cut"] and ranges:
        data = image[:min((ranges[-1][1] + 1) * bs, size)]
    src = make_image(spec, d, data)
    bmap = bmap_file(d, bmap_bytes)
    path = os.path.join(d, "dest")
    kind = spec["dest"]
    old = b""
    nblk = (size + bs - 1) // bs
    if kind in ("old", "dev"):
        n = size if kind == "old" else nblk * bs
        n = max(0, n + spec["oldlen"]) if kind == "old" else max(n, size) + spec["extra"]
        old = util.fast_pattern(61, n)
    given = size if spec["declare"] else None
    if kind == "dev":
        dev = bdev.FakeBdev(d, len(old), old)
        rec = dev.rec
        with dev:
            dest = open(dev.path, "wb")
            dest.seek(spec.get("pos", 0))
            out = do_copy(src, dest, bmap, given, spec["sync"], spec["verify"])
            dest.close()
        got = dev.contents()
    else:
        rec = Recorder()
        if kind == "old":
            with open(path, "wb") as f:
                f.write(old)
        dest = util.open_dest(path, rec, {"new": "wb+", "new-w": "wb", "old": "rb+"}[kind])
        # Wherever the object is positioned
        dest.seek(spec.get("pos", 0))
        out = do_copy(src, dest, bmap, given, spec["sync"], spec["verify"])
        dest.close()
        with open(path, "rb") as f:
            got = f.read()
    check(out.kind == "ok", "copying a good image with its bmap gave %r", out)
    if kind == "dev":
        want = bytearray(old)
        for a, b in ranges:
            s, e = a * bs, min((b + 1) * bs, size)
            want[s:e] = image[s:e]
        check_same(got, bytes(want), "the device", bs)
        check(not [e for e in rec.events if e[0] == "truncate"], "the device was resized")
    else:
        check_same(got, expected(old, image, size, bs, ranges), "the destination", bs)
    check_inside(rec, size, bs, ranges)
    return Info(bool(ranges) and sum(b - a + 1 for a, b in ranges) < nblk, "dest " + kind, "src " + spec["src"], *labels(g))


def strategy():
    return st.fixed_dictionaries({
        "g": gen.geometry(),
        "img": image_content,
        "fs": st.sampled_from(["shm", "shm", "ext"]),
        "src": st.sampled_from(["mem", "mem", "file", "trans"]),
        "dest": st.sampled_from(["new", "new-w", "old", "old", "dev"]),
        "oldlen": st.sampled_from([0, 1, -1, 4096, 100000, -3000]),
        "extra": st.sampled_from([0, 1, 4096, 70000]),
        "pos": gen.weighted((3, st.just(0)), (1, st.sampled_from([1, 77, 4096, 1000000]))),
        "chk": st.booleans(),
        "cs": st.sampled_from(["sha256", "sha1", "md5", "sha512"]),
        "cut": st.booleans(),
        "declare": st.booleans(),
        "sync": st.booleans(),
        "verify": st.booleans(),
    })


def run_far(spec):
    """Sparse images of many GiB with a few blocks mapped, anywhere."""
    util.patch_os()
    bs = spec["bs"]
    d = util.scratch(spec["fs"])
    nblk = spec["gib"] * (1 << 30) // bs + spec["plus"]
    size = nblk * bs - spec["tail"] % bs
    blocks = sorted(set(min(int(nblk * num / den) + off, nblk - 1) if nblk * num // den + off >= 0 else 0 for num, den, off in spec["at"]))
    runs = []
    for b in blocks:
        last = min(b + spec["len"] - 1, nblk - 1)
        if runs and b <= runs[-1][1] + 1:
            runs[-1][1] = max(runs[-1][1], last)
        else:
            runs.append([b, last])
    img_path = os.path.join(d, "img")
    pieces = {}
    with open(img_path, "wb") as f:
        f.truncate(size)
        for a, b in runs:
            s, e = a * bs, min((b + 1) * bs, size)
            buf = util.fast_pattern(a % 64, e - s)
            pieces[s] = buf
            os.pwrite(f.fileno(), buf, s)

    def read_at(off, n):
        with open(img_path, "rb") as f:
            return os.pread(f.fileno(), n, off)

    data = build_bmap(spec["version"], size, bs, runs, read_at, style=spec["style"])
    src = open(img_path, "rb")
    util.at_case_end(src.close)
    rec = Recorder()
    path = os.path.join(d, "dest")
    dest = util.open_dest(path, rec, "wb+")
    out = do_copy(src, dest, bmap_file(d, data), None, False, True)
    dest.close()
    check(out.kind == "ok", "copying gave %r", out)
    check(os.stat(path).st_size == size, "the destination has %d bytes, should have %d", os.stat(path).st_size, size)
    check_inside(rec, size, bs, runs)
    total = 0
    with open(path, "rb") as f:
        for s, buf in pieces.items():
            got = os.pread(f.fileno(), len(buf), s)
            check(got == buf, "the data at offset %d differ", s)
            total += len(buf)
    used = os.stat(path).st_blocks * 512
    check(used <= total + (1 << 20) + len(runs) * 16384, "the destination uses %d bytes for %d bytes of mapped data", used, total)
    return Info(any(a * bs >= 1 << 32 for a, b in runs), "over 4 GiB" if any(a * bs >= 1 << 32 for a, b in runs) else "below 4 GiB",
                "over 1 TiB" if any(a * bs >= 1 << 40 for a, b in runs) else "below 1 TiB", "bs %d" % bs)


def far_st():
    return st.fixed_dictionaries({
        "bs": st.sampled_from([512, 4096, 4096, 65536, 1 << 20]),
        "gib": st.sampled_from([1, 3, 4, 5, 8, 100, 1025, 3000]),
        "plus": gen.ints(0, 3),
        "tail": gen.ints(0, 4096),
        "at": st.lists(st.tuples(gen.ints(0, 8), st.just(8), gen.ints(-3, 3)).map(list), min_size=1, max_size=5),
        "len": st.sampled_from([1, 2, 3, 17]),
        "version": st.sampled_from(["1.2", "1.3", "1.4", "2.0"]),
        "style": gen.ints(0, 59),
        "fs": st.sampled_from(["shm", "ext"]),
    })


def many_st():
    """Images with very many ranges."""
    return st.fixed_dictionaries({
        "g": st.tuples(gen.ints(500, 6000), gen.ints(1, 3), gen.ints(1, 3), st.sampled_from(["1.1", "1.3", "1.4", "2.0"]), gen.ints(0, 59), gen.ints(0, 511)).map(
            lambda t: {"bs": 512, "size": t[0] * (t[1] + t[2]) * 512 - t[5], "version": t[3], "style": t[4],
                       "ranges": [[i * (t[1] + t[2]), i * (t[1] + t[2]) + t[1] - 1] for i in range(t[0])]}),
        "img": image_content, "fs": st.just("shm"), "src": st.sampled_from(["mem", "file"]), "dest": st.sampled_from(["new", "old", "dev"]),
        "oldlen": st.just(100), "extra": st.just(0), "chk": st.booleans(), "cs": st.just("sha256"), "cut": st.booleans(), "declare": st.booleans(),
        "sync": st.booleans(), "verify": st.booleans(),
    }).map(lambda s: dict(s, g=dict(s["g"], ranges=[[a, min(b, (s["g"]["size"] + 511) // 512 - 1)] for a, b in s["g"]["ranges"]])))


PROPERTY = Property(
    "K01",
    "Hand-made bmaps of every format version over random range lists (gaps, adjacent ranges, batch-sized runs, partial last block), block sizes 1 byte to >1 MiB, "
    "forward-only/real/transparent image sources, new, existing and device destinations with recorded writes; 'far' adds sparse images up to 3 TiB, 'many' thousands of ranges; "
    "non-trivial: something mapped and something not mapped (far: data beyond 4 GiB).",
    [Facet("copy", strategy, run, quick=2400, thorough=40000, shards=8),
     Facet("far", far_st, run_far, quick=160, thorough=2000, shards=2),
     Facet("many", many_st, run, quick=40, thorough=500, shards=2)],
    ["the image holds all mapped blocks of the bmap"],
)
