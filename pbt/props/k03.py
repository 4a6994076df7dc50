"""K03: create then copy round-trips an image and keeps it sparse."""

import os
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from pbt import comp, gen, util
from pbt.copyh import bmap_file, do_copy, first_diff
from pbt.core import Facet, Info, Property, Violation
from pbt.props.c01 import _intersect, _minus, bs_st, create, method_scope, set_block, truth
from pbt.util import MemImage, check

SMALL = 24 << 20


def same_file(img, dest):
    """Compare the image and its copy: size, all data areas of both."""
    with open(img.path, "rb") as fa, open(dest, "rb") as fb:
        a, b = os.fstat(fa.fileno()).st_size, os.fstat(fb.fileno()).st_size
        check(a == b, "the copy has %d bytes, the image %d", b, a)
        spans = [(s * gen.BS, e * gen.BS) for s, e in img.touched.spans]
        spans += _minus([(0, a)], util.holes_by_seek(dest))
        spans += _minus([(0, a)], util.holes_by_seek(img.path))
        for s, e in spans:
            e = min(e, a)
            while s < e:
                n = min(1 << 20, e - s)
                x, y = os.pread(fa.fileno(), n, s), os.pread(fb.fileno(), n, s)
                if x != y:
                    raise Violation("the copy differs from the image at offset %d" % (s + first_diff(x, y)))
                s += n


def still_sparse(img, dest, bs=gen.BS):
    """No data in the copy where the image never had any."""
    _nonzero, never = truth(img, bs)
    data = _minus([(0, img.size)], util.holes_by_seek(dest))
    wrong = _intersect(data, [(a * bs, b * bs) for a, b in never])
    check(not wrong, "the copy has data in holes of the image: %r (bytes)", wrong[:5])


def check_storage(bmap, img, dest, bs=gen.BS):
    """The copy takes storage for the mapped blocks, not for the others."""
    mapped = int(ET.fromstring(bmap).find("MappedBlocksCount").text) * bs
    used = os.stat(dest).st_blocks * 512
    check(used <= mapped + mapped // 2 + (1 << 20), "the copy uses %d bytes of storage for %d bytes of mapped blocks", used, mapped)


def labels(spec, img, sz):
    lab = ["fs " + spec["img"]["fs"], "source " + spec["src"], "dest " + spec["destfs"]]
    if img.size % gen.BS:
        lab.append("unaligned")
    if sz > (1 << 20):
        lab.append("over one batch")
    return lab


def nontrivial(img):
    data = len(img.nonzero_blocks())
    return data > 0 and data < img.nblk


def open_source(spec, img, d):
    from bmaptools import TransRead

    src = spec["src"]
    if img.size > SMALL and src != "file":
        src = "trans"  # too large to be compressed quickly
    if src in ("mem",) or src in comp.EXTS:
        with open(img.path, "rb") as f:
            data = f.read()
        if src == "mem":
            return MemImage(data)
        path = os.path.join(d, "packed." + src)
        with open(path, "wb") as f:
            f.write(comp.pack(src, data, d))
    elif src == "file":
        f = open(img.path, "rb")
        util.at_case_end(f.close)
        return f
    else:
        path = img.path
    f = TransRead.TransRead(path)
    util.at_case_end(f.close)
    return f


def run(spec):
    d = util.scratch(spec["img"]["fs"])
    img = gen.build_image(spec["img"], d)
    with method_scope(spec):
        data = create(img.path, d, spec)
    src = open_source(spec, img, d)
    dd = util.scratch(spec["destfs"])
    path = os.path.join(dd, "dest")
    old = spec["old"]
    if old:
        with open(path, "wb") as f:
            f.write(util.fast_pattern(5, old))
    dest = open(path, "wb+")
    out = do_copy(src, dest, bmap_file(d, data), None, spec["sync"], True)
    dest.close()
    check(out.kind == "ok", "copying the image with its own bmap gave %r", out)
    same_file(img, path)
    # (smaller blocks take the storage of a whole one)
    bs = max(spec.get("bs") or 0, gen.BS)
    still_sparse(img, path, bs)
    check_storage(data, img, path, bs)
    check(util.sha(img.path) == util.sha(path) if img.size < SMALL else True, "the copy differs from the image")
    return Info(nontrivial(img), *labels(spec, img, img.size))


def src_st():
    return gen.weighted((3, st.just("file")), (3, st.just("trans")), (2, st.just("mem")),
                        (2, st.sampled_from(["gz", "bz2", "xz", "zst", "lz4", "lzo", "zip", "tar.gz", "tgz", "tar.xz", "tar.zst"])))


def strategy():
    return st.fixed_dictionaries({
        "img": gen.sparse_image(),
        "method": gen.weighted((3, st.just("native")), (1, st.sampled_from(["seek", "notty"]))),
        "api": st.sampled_from(["path", "obj"]),
        "chk": gen.weighted((3, st.just(True)), (1, st.just(False))),
        "cs": st.sampled_from(["sha256", "sha1", "md5", "sha512", "sha3_256"]),
        "src": src_st(),
        "destfs": st.sampled_from(["ext", "shm"]),
        "old": st.sampled_from([0, 0, 1, 5000000]),
        "sync": st.booleans(),
        "block": bs_st(),
    }).map(set_block)


def run_cli(spec):
    d = util.scratch(spec["img"]["fs"])
    img = gen.build_image(spec["img"], d, "disk.img")
    args = ["create", "disk.img", "-o", "disk.img.bmap"] + ([] if spec["chk"] else ["--no-checksum"])
    if spec["stdout"]:
        args = ["create", "disk.img"] + ([] if spec["chk"] else ["--no-checksum"])
    res = util.run_cli(args, d)
    check(res.code == 0, "creating the bmap failed: %r", res)
    if spec["stdout"]:
        with open(os.path.join(d, "disk.img.bmap"), "wb") as f:
            f.write(res.out)
    src = spec["src"]
    if img.size > SMALL:
        src = "file"
    stdin = None
    name = "disk.img"
    extra = []
    if src in comp.EXTS or src == "stdin":
        with open(img.path, "rb") as f:
            data = f.read()
        if src == "stdin":
            stdin, name, extra = data, "-", ["--bmap", "disk.img.bmap"]
        else:
            name = "disk.img." + src
            with open(os.path.join(d, name), "wb") as f:
                f.write(comp.pack(src, data, d))
    dd = util.scratch(spec["destfs"])
    path = os.path.join(dd, "out")
    if spec["old"]:
        with open(path, "wb") as f:
            f.write(util.fast_pattern(5, spec["old"]))
    res = util.run_cli(["copy"] + extra + [name, path], d, stdin=stdin)
    check(res.code == 0, "copying %s failed: %r", name, res)
    same_file(img, path)
    still_sparse(img, path)
    with open(os.path.join(d, "disk.img.bmap"), "rb") as f:
        check_storage(f.read(), img, path)
    return Info(nontrivial(img), *labels(spec, img, img.size))


def cli_st():
    return st.fixed_dictionaries({
        "img": gen.sparse_image(max_blocks=60),
        "chk": st.booleans(),
        "stdout": st.booleans(),
        "src": gen.weighted((2, st.just("file")), (2, st.just("stdin")), (2, st.sampled_from(sorted(comp.EXTS)))),
        "destfs": st.sampled_from(["ext", "shm"]),
        "old": st.sampled_from([0, 0, 1, 3000000]),
    })


_BIG = {"nblk": 1400, "tail": 100, "ops": [["w", 3, 257, 1], ["w", 300, 600, 2], ["w", 1000, 256, 3], ["w", 1399, 1, 4]]}
CORNER = [{"img": dict(_BIG, fs=fs), "method": "native", "api": "path", "chk": True, "cs": "sha256", "src": src, "destfs": fs, "old": 0, "sync": False}
          for fs in ("ext", "shm") for src in ("file", "trans", "mem", "gz")]

PROPERTY = Property(
    "K03",
    "Random sparse images (see C01) are mapped and copied with the generated bmap, with verification, from plain/transparent/forward-only/compressed sources to new or existing "
    "files on two file systems, and the same through the command line (incl. standard input); all data areas and sizes are compared and the copy's holes "
    "(asked from the kernel) must include the image's never-allocated holes; non-trivial: the image has data blocks and blocks without data.",
    [Facet("roundtrip", strategy, run, quick=700, thorough=12000, shards=6, corner=CORNER),
     Facet("cli", cli_st, run_cli, quick=150, thorough=3000, shards=2, noise="vsp")],
    ["a file compares equal to the image if sizes, touched areas and kernel-reported data areas agree"],
)
