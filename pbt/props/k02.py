"""K02: copying without a bmap produces an identical file."""

import os

from hypothesis import strategies as st

from pbt import bdev, gen, util
from pbt.copyh import check_same, do_copy, image_content
from pbt.core import Facet, Info, Property
from pbt.util import MemImage, Recorder, check, content

MB = 1 << 20


def size_st():
    return gen.weighted(
        (3, gen.ints(0, 20000)), (2, st.sampled_from([0, 1, 4095, 4096, 4097, MB - 1, MB, MB + 1, 2 * MB, 2 * MB - 4096, 6 * MB, 7 * MB + 5])),
        (1, gen.ints(0, 3 * MB)))


class Pipe(object):
    """A source on a pipe fed by a process; delivers in odd pieces."""


def pipe_image(d, data, piece):
    import subprocess
    import sys

    path = os.path.join(d, "src.bin")
    with open(path, "wb") as f:
        f.write(data)
    code = "import sys\nf=open(sys.argv[1],'rb')\no=sys.stdout.buffer\nn=%d\nwhile 1:\n b=f.read(n)\n if not b: break\n o.write(b); o.flush()" % piece
    proc = subprocess.Popen([sys.executable, "-S", "-B", "-c", code, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def stop():
        proc.stdout.close()
        proc.kill()
        proc.wait()

    util.at_case_end(stop)
    return proc.stdout


def run(spec):
    util.patch_os()
    size = spec["size"]
    d = util.scratch("shm")
    image = content(spec["img"], size)
    src = spec["src"]
    if src == "mem":
        f = MemImage(image)
    elif src == "pipe":
        f = pipe_image(d, image, spec["piece"])
        f.name if hasattr(f, "name") else None
    else:
        path = os.path.join(d, "src.img")
        with open(path, "wb") as o:
            o.write(image)
        if src == "file":
            f = open(path, "rb")
        else:
            from bmaptools import TransRead

            f = TransRead.TransRead(path)
        util.at_case_end(f.close)
    if src == "pipe":
        f = NoSeek(f)
    declared = size if spec["declare"] else None
    old = util.fast_pattern(60, spec["old"])
    if spec["dest"] == "dev":
        old = util.fast_pattern(60, size + spec["old"])
        dev = bdev.FakeBdev(d, len(old), old)
        rec = dev.rec
        with dev:
            dest = open(dev.path, "wb")
            dest.seek(spec.get("pos", 0))
            out = do_copy(f, dest, None, declared, spec["sync"], spec["verify"])
            dest.close()
        got = dev.contents()
        want = image + old[size:]
    else:
        path = os.path.join(d, "dest")
        rec = Recorder()
        with open(path, "wb") as o:
            o.write(old)
        # An existing file is either truncated when opened or written in place
        dest = util.open_dest(path, rec, {"new": "wb+", "w": "wb", "inplace": "rb+"}[spec["dest"]])
        # Wherever the object is positioned
        dest.seek(spec.get("pos", 0))
        out = do_copy(f, dest, None, declared, spec["sync"], spec["verify"])
        dest.close()
        with open(path, "rb") as o:
            got = o.read()
        want = image
    check(out.kind == "ok", "copying without a bmap gave %r", out)
    check_same(got, want, "the destination", 4096)
    w = out.writer
    if size or declared:
        check(w.image_size == size, "the reported image size is %r", w.image_size)
        check(w.blocks_cnt == (size + w.block_size - 1) // w.block_size, "the reported blocks count is %r", w.blocks_cnt)
        check(w.mapped_cnt == w.blocks_cnt, "the reported mapped count is %r", w.mapped_cnt)
        check(w.mapped_size == size, "the reported mapped size is %r", w.mapped_size)
    return Info(size > 0, "src " + src, "dest " + spec["dest"], "size declared: %s" % bool(declared),
                "whole batches" if size and size % MB == 0 else "whole blocks" if size % 4096 == 0 else "unaligned")


class NoSeek(object):
    """What a pipe offers, with emulated forward seeking."""

    name = "pipe"

    def __init__(self, f):
        self.f = f
        self.pos = 0

    def read(self, n=-1):
        buf = self.f.read(n)
        self.pos += len(buf)
        return buf

    def seek(self, off, whence=0):
        if off < self.pos:
            raise AssertionError("backwards")
        self.f.read(off - self.pos)
        self.pos = off


def strategy():
    return st.fixed_dictionaries({
        "size": size_st(),
        "img": image_content,
        "src": gen.weighted((3, st.just("mem")), (2, st.just("file")), (2, st.just("trans")), (1, st.just("pipe"))),
        "piece": st.sampled_from([1000, 4096, 65536, 1 << 20]),
        "declare": st.booleans(),
        "dest": st.sampled_from(["new", "w", "inplace", "dev"]),
        "old": st.sampled_from([0, 1, 4096, 100000, 2 * MB]),
        "pos": gen.weighted((3, st.just(0)), (1, st.sampled_from([1, 77, 4096, 1000000]))),
        "sync": st.booleans(),
        "verify": st.booleans(),
    })


def run_cli(spec):
    size = spec["size"]
    d = util.scratch("shm")
    image = content(spec["img"], size)
    with open(os.path.join(d, "i.img"), "wb") as f:
        f.write(image)
    if spec["old"]:
        with open(os.path.join(d, "out"), "wb") as f:
            f.write(util.fast_pattern(60, spec["old"]))
    args = (["-q"] if spec["quiet"] else []) + ["copy", "--nobmap"] + (["--no-verify"] if spec["verify"] else []) + ["-" if spec["stdin"] else "i.img", "out"]
    if spec["bmap"]:
        # A bmap next to the image must not be used
        with open(os.path.join(d, "i.img.bmap"), "wb") as f:
            f.write(util.build_bmap("2.0", size, 4096, [[0, 0]], None) if size else b"junk")
    res = util.run_cli(args, d, stdin=image if spec["stdin"] else None)
    check(res.code == 0, "%r of a %d-byte image: %r", args, size, res)
    with open(os.path.join(d, "out"), "rb") as f:
        got = f.read()
    check_same(got, image, "the destination", 4096)
    return Info(size > 0, "stdin" if spec["stdin"] else "file")


def cli_st():
    return st.fixed_dictionaries({
        "size": size_st(), "img": image_content, "old": st.sampled_from([0, 1, 100000, 8 * MB]), "quiet": st.booleans(), "verify": st.booleans(),
        "stdin": st.booleans(), "bmap": st.booleans()})


PROPERTY = Property(
    "K02",
    "Image sizes biased to 0, block and 1 MiB batch boundaries; in-memory, file, transparent and pipe sources; known/unknown size; new, overwritten, in-place and device "
    "destinations; plus the command line with --nobmap from files and standard input; non-trivial: the image is not empty.",
    [Facet("copy", strategy, run, quick=1800, thorough=15000, shards=6),
     Facet("cli", cli_st, run_cli, quick=320, thorough=3000, shards=2, noise="vspn")],
    ["a source's read(n) returns fewer than n bytes only at the end of the data, as for buffered files and the transparent reader"],
)
