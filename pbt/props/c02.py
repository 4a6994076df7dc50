"""C02: a generated bmap is consistent with itself and with the image."""

import hashlib
import os
import re
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from pbt import gen, util
from pbt.core import Facet, Info, Property, Violation
from pbt.props import c01
from pbt.util import Bmap, check

HASHES = sorted(h for h in hashlib.algorithms_available if not h.startswith("shake") and h == h.lower())
UNITS = {"bytes": 1, "byte": 1, "KiB": 1 << 10, "MiB": 1 << 20, "GiB": 1 << 30, "TiB": 1 << 40, "PiB": 1 << 50, "EiB": 1 << 60}


def human_ok(text, size):
    """Is 'text' a truthful one-decimal rendering of 'size' bytes?"""
    m = re.match(r"^\s*(\d+(?:\.\d+)?) (bytes?|[KMGTPE]iB)\s*$", text)
    if not m:
        return False
    unit = UNITS[m.group(2)]
    return abs(float(m.group(1)) * unit - size) <= 0.0501 * unit


def usable_hashes():
    out = []
    for h in HASHES:
        try:
            hashlib.new(h).hexdigest()
            out.append(h)
        except (ValueError, TypeError):
            pass
    return out


def never_written(img, spec, block):
    """Is 'block' or the one before it allocated without having been written?"""
    if not any(op[0] in ("f", "k") for op in spec["img"]["ops"]):
        return False
    bs = spec.get("bs") or gen.BS
    with open(img.path, "rb") as f:
        return any(not os.pread(f.fileno(), bs, b * bs).strip(b"\0") for b in (block - 1, block))


def verify_text(data, img, spec):
    try:
        bmap = Bmap(data)
    except ET.ParseError as err:
        raise Violation("the generated bmap is not well-formed: %s\n%s" % (err, data[-2000:]))
    cs = spec.get("cs", "sha256").lower()
    check(bmap.version == "2.0", "format version is %r", bmap.version)
    check(bmap.image_size == img.size, "image size %d instead of %d", bmap.image_size, img.size)
    check(bmap.block_size == (spec.get("bs") or util.fs_block_size(img.path)), "block size %d", bmap.block_size)
    check(bmap.blocks_cnt == (img.size + bmap.block_size - 1) // bmap.block_size, "blocks count %d for size %d", bmap.blocks_cnt, img.size)
    prev = -2
    total = 0
    for a, b in bmap.ranges:
        check(a <= b, "reversed range %d-%d", a, b)
        # File systems may change their mind about storage which was never
        # written when its pages get into the page cache, as they do meanwhile
        check(a > prev + 1 or a == prev + 1 and never_written(img, spec, a), "range %d-%d follows one which ends at %d: not ascending, disjoint and non-adjacent", a, b, prev)
        prev = b
        total += b - a + 1
    check(prev < bmap.blocks_cnt, "the last range ends at %d, there are %d blocks", prev, bmap.blocks_cnt)
    check(bmap.mapped_cnt == total, "mapped blocks count is %d, the ranges have %d", bmap.mapped_cnt, total)
    check(bmap.cs_type == cs, "checksum type %r instead of %r", bmap.cs_type, cs)
    check(bmap.file_chksum == bmap.self_checksum(), "the file's checksum is %r, should be %r", bmap.file_chksum, bmap.self_checksum())
    with open(img.path, "rb") as f:
        for (a, b), chk in zip(bmap.ranges, bmap.chksums):
            if not spec.get("chk", True):
                check(chk is None, "a checksum although checksums are disabled")
                continue
            want = util.range_checksum(lambda off, n: os.pread(f.fileno(), n, off), bmap.block_size, a, b, cs)
            check(chk == want, "checksum of range %d-%d is %r, should be %r", a, b, chk, want)
    # Remarks for humans
    text = data.decode()
    m = re.search(r"<!-- Image size in bytes: (.*?) -->", text)
    if m:
        check(human_ok(m.group(1), img.size), "image size %d is described as %r", img.size, m.group(1))
    m = re.search(r"<!-- Count of mapped blocks: (.*?) or +([\d.]+)% *-->", text, re.S)
    if m:
        check(human_ok(m.group(1), total * bmap.block_size), "%d mapped bytes are described as %r", total * bmap.block_size, m.group(1))
        check(abs(float(m.group(2)) - total * 100.0 / bmap.blocks_cnt) <= 0.0501, "%d of %d blocks are described as %s%%", total, bmap.blocks_cnt, m.group(2))
    else:
        m = re.search(r"<!-- Count of mapped blocks:.*?-->", text, re.S)
        check(m is None, "cannot understand the remark %r", m and m.group(0))
    return bmap


def run(spec):
    d, img = c01.setup_image(spec)
    if spec["api"] == "attrs":
        from bmaptools import BmapCreate

        out = os.path.join(d, "o.bmap")
        with c01.method_scope(spec):
            creator = BmapCreate.BmapCreate(img.path, out, spec["cs"])
            before = (creator.image_size, creator.block_size, creator.blocks_cnt)
            creator.generate(spec["chk"])
        with open(out, "rb") as f:
            data = f.read()
        bmap = verify_text(data, img, spec)
        check(before == (bmap.image_size, bmap.block_size, bmap.blocks_cnt), "attributes %r before generating", before)
        check(creator.mapped_cnt == bmap.mapped_cnt, "mapped_cnt %r", creator.mapped_cnt)
        check(creator.mapped_size == bmap.mapped_cnt * bmap.block_size, "mapped_size %r", creator.mapped_size)
        check(abs(creator.mapped_percent - bmap.mapped_cnt * 100.0 / bmap.blocks_cnt) < 1e-6, "mapped_percent %r", creator.mapped_percent)
        check(human_ok(creator.image_size_human, img.size), "image_size_human %r", creator.image_size_human)
        check(human_ok(creator.mapped_size_human, creator.mapped_size), "mapped_size_human %r", creator.mapped_size_human)
    else:
        if spec["api"] in ("cli", "stdout"):
            spec = dict(spec, cs="sha256")
        with c01.method_scope(spec):
            data = c01.create(img.path, d, spec)
        bmap = verify_text(data, img, spec)
    lab = ["hash:" + spec["cs"].lower(), "api:" + spec["api"], "checksums:%s" % spec["chk"], "fs:" + spec["img"]["fs"]]
    if bmap.mapped_cnt == bmap.blocks_cnt:
        lab.append("fully mapped")
    if not bmap.ranges:
        lab.append("nothing mapped")
    if bmap.ranges and bmap.ranges[-1][1] == bmap.blocks_cnt - 1 and img.size % bmap.block_size:
        lab.append("partial last block mapped")
    if any((b - a + 1) * bmap.block_size > 1 << 20 for a, b in bmap.ranges):
        lab.append("range over 1 MiB")
    return Info(bool(bmap.ranges), *lab)


def strategy():
    hashes = usable_hashes()
    long_run = st.tuples(st.sampled_from([255, 256, 257, 511, 513, 700]), gen.tail_st(), gen.ints(0, 5), st.sampled_from(["ext", "shm"])).map(
        lambda t: {"fs": t[3], "nblk": t[0] + t[2] + 1, "tail": t[1], "ops": [["w", t[2], t[0] + 1, 3]]})
    return st.fixed_dictionaries({
        "img": gen.weighted((5, gen.sparse_image(comb=False)), (1, gen.sparse_image()), (2, long_run)),
        "method": gen.weighted((5, st.just("native")), (1, st.just("seek"))),
        "api": st.sampled_from(["path", "obj", "attrs", "attrs", "cli", "stdout"]),
        "preread": st.sampled_from([0, 10, 5000]),
        "chk": gen.weighted((4, st.just(True)), (1, st.just(False))),
        "cs": gen.weighted((3, st.just("sha256")), (4, st.sampled_from(hashes)), (1, st.sampled_from(["SHA256", "Sha1", "MD5"]))),
        "block": c01.bs_st(),
    }).map(c01.set_block)


def run_reject(spec):
    """Impossible requests are refused with the module's own error."""
    from bmaptools import BmapCreate

    d = util.scratch("ext")
    path = os.path.join(d, "img")
    kind = spec["kind"]
    if kind != "missing":
        with open(path, "wb") as f:
            f.write(b"x" * spec["size"] if kind != "empty" else b"")
    cs = "no-such-hash%d" % spec["size"] if kind == "hash" else "sha256"
    out = os.path.join(d, "nodir", "o") if kind == "out" else os.path.join(d, "o")
    try:
        creator = BmapCreate.BmapCreate(path, out, cs)
        creator.generate()
    except BmapCreate.Error:
        return Info(True, "refused: " + kind)
    except AttributeError as err:
        raise Violation("%s: %r instead of the module's error" % (kind, err))
    raise Violation("a bmap was generated although: %s" % kind)


def reject_st():
    return st.fixed_dictionaries({"kind": st.sampled_from(["missing", "empty", "hash", "out"]), "size": gen.ints(1, 5000)})


PROPERTY = Property(
    "C02",
    "Images are random sparse files (see C01) plus runs around 1 MiB; the bmap is generated by path, file object, command line to file/stdout, "
    "with any hash the library offers, with and without range checksums, and re-read by the harness's own parser; non-trivial: at least one mapped range.",
    [Facet("text", strategy, run, quick=1400, thorough=15000, shards=8), Facet("reject", reject_st, run_reject, quick=40, shards=1)],
    ["hash functions of hashlib are right", "remarks are checked only where they have the documented form"],
)
