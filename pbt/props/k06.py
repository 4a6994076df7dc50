"""K06: a bmap that is unsupported, malformed or foreign is never a success."""

import hashlib
import os
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from pbt import badbmap, bdev, comp, gen, util
from pbt.copyh import bmap_file, do_copy
from pbt.core import Facet, Info, Property
from pbt.util import MemImage, Recorder, check, content

REQUIRED = ["ImageSize", "BlockSize", "BlocksCount", "MappedBlocksCount", "BlockMap"]
JUNK = ["", "abc", "12x", "0x10", "1.5", "--", "1 2", "None", "9" * 5 + "e"]
BAD_VERSIONS = ["", "2", "x.y", "1.x", "x.0", "one", "1,3", "2.", ".0"]
NEWER = ["3.0", "3.1", "4.2", "10.0", "20.0", "3.0.1", "99.99", "3.4", "3.3"]
BAD_HASH = ["sha257", "none", "x", "SHA 256", "sha-2", "crc", "md4x", "sha256 sha1", "0", ""]


def make(g, image, chk, cs, edit):
    """A bmap with one thing wrong; its own checksum is right, if it has one."""
    kind, num, sel = edit
    bs, size = g["bs"], g["size"]
    ranges = [list(r) for r in g["ranges"]]
    nblk = (size + bs - 1) // bs
    version = g["version"]
    field = {"ImageSize": size, "BlockSize": bs, "BlocksCount": nblk, "MappedBlocksCount": sum(b - a + 1 for a, b in ranges)}
    texts = ["%d-%d" % (a, b) if a != b or (num % 2) else "%d" % a for a, b in ranges]
    drop = None
    no_root_version = False
    nosum = set()
    if kind == "newer":
        version = NEWER[num % len(NEWER)]
    elif kind == "hash":
        cs_name = BAD_HASH[num % len(BAD_HASH)]
    elif kind == "blockscnt":
        delta = [1, -1, 2, nblk, 1000, -nblk][num % 6]
        field["BlocksCount"] = nblk + delta
    elif kind == "imgsize":
        # More or less blocks than the count says
        delta = [bs, -bs, 10 * bs, -size][num % 4]
        field["ImageSize"] = size + delta
        if size + delta <= 0 and bs > 1:
            field["ImageSize"] = size + bs
    elif kind == "blksize":
        new = [bs * 2, bs + 1, max(bs // 2, 1), bs * 1000][num % 4]
        if (size + new - 1) // new == nblk:
            return None
        field["BlockSize"] = new
    elif kind == "mapped":
        m = field["MappedBlocksCount"]
        delta = [1, -1, 2, -2, m, -m, 1000][num % 7]
        if delta == 0 or m + delta < 0:
            delta = 1
        field["MappedBlocksCount"] = m + delta
    elif kind == "reversed":
        i = sel % len(ranges)
        a, b = ranges[i]
        texts[i] = "%d-%d" % (b + 1 + num % 3, a)
        if num % 2:
            texts[i] = "%d - %d" % (a + 1, a)
            if num % 4 == 3:
                # The count is right if the range is taken for an empty one
                field["MappedBlocksCount"] -= b - a + 1
                nosum.add(i)
    elif kind == "beyond":
        # The last range does not end in the image
        i = len(ranges) - 1
        a, b = ranges[i]
        more = [nblk, nblk + 5, nblk * 2 + 3][num % 3]
        field["MappedBlocksCount"] += more - b
        texts[i] = "%d-%d" % (a, more)
        ranges[i][1] = more
    elif kind == "junkrange":
        i = sel % len(ranges)
        texts[i] = ["", "a-b", "1-", "-", "x", "1-2-3", "1:2", "0..5", "1,2", "5-a"][num % 10]
    elif kind == "drop":
        drop = REQUIRED[num % len(REQUIRED)]
    elif kind == "junk":
        field[list(field)[sel % 4]] = JUNK[num % len(JUNK)]
    elif kind == "badversion":
        version = BAD_VERSIONS[num % len(BAD_VERSIONS)]
    elif kind == "noversion":
        no_root_version = True
    elif kind == "zerobs":
        field["BlockSize"] = [0, -bs, -1][num % 3]
    new_style = version in ("1.4", "2.0") or version in NEWER
    out = ['<?xml version="1.0" ?>\n<bmap%s>\n' % ("" if no_root_version else ' version="%s"' % version)]
    for tag, value in field.items():
        if tag != drop:
            out.append("    <%s> %s </%s>\n" % (tag, value, tag))
    if kind == "hash":
        out.append("    <ChecksumType> %s </ChecksumType>\n    <BmapFileChecksum> \0 </BmapFileChecksum>\n" % cs_name)
    elif new_style:
        if not (kind == "drop" and sel % 3 == 1):
            out.append("    <ChecksumType> %s </ChecksumType>\n" % cs)
        if not (kind == "drop" and sel % 3 == 2):
            out.append("    <BmapFileChecksum> \0 </BmapFileChecksum>\n")
    elif version == "1.3":
        cs = "sha1"
        if not (kind == "drop" and sel % 3 == 2):
            out.append("    <BmapFileSHA1> \0 </BmapFileSHA1>\n")
    else:
        cs = "sha1"
    if drop != "BlockMap":
        out.append("    <BlockMap>\n")
    for i, ((a, b), text) in enumerate(zip(ranges, texts)):
        attr = ""
        if chk and i not in nosum:
            attr = ' %s="%s"' % ("chksum" if new_style else "sha1", hashlib.new(cs, image[a * bs:(b + 1) * bs]).hexdigest())
        out.append("        <Range%s> %s </Range>\n" % (attr, text))
    if drop != "BlockMap":
        out.append("    </BlockMap>\n")
    out.append("</bmap>\n")
    text = "".join(out)
    if "\0" in text:
        n = len(hashlib.new(cs).hexdigest())
        text = text.replace("\0", hashlib.new(cs, text.replace("\0", "0" * n).encode()).hexdigest())
    return text.encode()


def broken_xml(g, image, num, sel):
    """A file which is not well-formed XML."""
    data = make(dict(g), image, False, "sha256", ["none", 0, 0])
    pos = num % len(data)
    ways = [
        lambda: data[:pos],
        lambda: data.replace(b"</BlockMap>", b"", 1),
        lambda: data.replace(b"<BlockMap>", b"<BlockMap", 1),
        lambda: data + b"<x>",
        lambda: data[:pos] + b"<" + data[pos:],
        lambda: data[:pos] + b"&" + data[pos:],
        lambda: data[:pos] + b"\0" + data[pos:],
        lambda: data[:pos] + b"\xff\xfe" + data[pos:],
        lambda: b"",
        lambda: b"junk",
        lambda: bytes(1000),
        lambda: b"\n" * 5 + data,
        lambda: data.replace(b"version=", b"version", 1),
        lambda: bytes(range(256)) * 4,
        lambda: data.replace(b"</bmap>", b"</map>", 1),
        lambda: b"x" * 100000 + b"\n" + data,
    ]
    bad = ways[sel % len(ways)]()
    try:
        ET.fromstring(bad)
        return None
    except Exception:  # pylint: disable=broad-except
        return bad


def prepare(spec):
    g = spec["g"]
    image = content({"seed": 9}, g["size"])
    kind, num, sel = spec["edit"]
    g = dict(g, version=g["version"] if kind != "hash" else ["1.4", "2.0"][sel % 2])
    if kind == "xml":
        made = broken_xml(g, image, num, sel)
    else:
        made = make(g, image, spec["chk"], spec["cs"], spec["edit"])
    return g, image, made


def verdict(out, what):
    check(out.kind != "ok", "%s, but the copy succeeded", what)
    check(out.kind == "error", "%s should be reported by the package's own error, but: %r", what, out)
    check(str(out.exc).strip(), "%s: the error has no message", what)


def run(spec):
    util.patch_os()
    g, image, data = prepare(spec)
    if data is None:
        return Info(False, "not applicable")
    d = util.scratch("shm")
    if spec["dest"] == "dev":
        dev = bdev.FakeBdev(d, len(image) + 50 * g["bs"], b"")
        with dev:
            dest = open(dev.path, "wb")
            out = do_copy(MemImage(image), dest, bmap_file(d, data), None, spec["sync"], spec["verify"], bdev=True)
            dest.close()
    else:
        dest = util.open_dest(os.path.join(d, "dest"), Recorder(), "wb+")
        f = bmap_file(d, data)
        if spec["named"]:
            f = Named(f, "the.bmap")
        out = do_copy(MemImage(image), dest, f, None, spec["sync"], spec["verify"])
        dest.close()
    verdict(out, "the bmap has a fault (%r)" % (spec["edit"],))
    return Info(True, "fault " + spec["edit"][0], "version " + g["version"])


class Named(object):
    """The way the command-line tool wraps bmap files: not iterable."""

    def __init__(self, f, name):
        self._f = f
        self.name = name

    def __getattr__(self, name):
        return getattr(self._f, name)


def edit_st():
    kinds = ["newer", "hash", "blockscnt", "imgsize", "blksize", "mapped", "mapped", "reversed", "beyond", "junkrange", "drop", "junk", "badversion", "noversion", "zerobs",
             "xml", "xml"]
    return st.tuples(st.sampled_from(kinds), gen.ints(0, 2000), gen.ints(0, 50)).map(list)


def g_st():
    return gen.geometry(max_bytes=600000, sizes=gen.weighted((3, st.just(4096)), (2, st.sampled_from([512, 1000, 65536, 262144, 1 << 20]))), nonempty=True)


def strategy():
    return st.fixed_dictionaries({
        "g": g_st(), "edit": edit_st(), "chk": st.booleans(), "cs": st.sampled_from(["sha256", "sha1", "sha512"]), "sync": st.booleans(), "verify": st.booleans(),
        "named": st.booleans(), "dest": gen.weighted((5, st.just("file")), (1, st.just("dev")))})


# --- images which do not belong to the bmap ---------------------------------


def run_foreign(spec):
    """The image is too short, or its declared size is not the bmap's."""
    util.patch_os()
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    image = content({"seed": 4}, size)
    data = util.build_bmap(g["version"], size, bs, ranges, image if spec["chk"] else None, cs_type="sha256", style=g["style"])
    d = util.scratch("shm")
    how = spec["how"]
    declared = None
    src_data = image
    mapped_end = min((ranges[-1][1] + 1) * bs, size)
    if how == "declared":
        declared = size + [1, -1, bs, -bs, 512, size][spec["num"] % 6]
        if declared <= 0 or declared == size:
            declared = size + 1
    elif how == "short":
        # The data end before the mapped area does
        cut = [1, 2, bs, bs + 1, bs - 1, mapped_end // 2, mapped_end, mapped_end - 1, spec["num"]][spec["num"] % 9]
        cut = min(max(cut, 1), mapped_end)
        src_data = image[:mapped_end - cut]
    else:
        # Without a bmap, but with the size known
        data = None
        cut = [1, 2, 4096, 4097, size // 2, size, 5000][spec["num"] % 7]
        cut = min(max(cut, 1), size)
        declared = size
        src_data = image[:size - cut]
    src = MemImage(src_data)
    if spec["file"]:
        path = os.path.join(d, "src")
        with open(path, "wb") as f:
            f.write(src_data)
        src = open(path, "rb")
        util.at_case_end(src.close)
    dest = util.open_dest(os.path.join(d, "dest"), Recorder(), "wb+")
    out = do_copy(src, dest, bmap_file(d, data) if data else None, declared, spec["sync"], spec["verify"])
    dest.close()
    verdict(out, "the image does not have the size it should have (%s: %d bytes of data, declared %r, image size %d, mapped up to %d)" % (
        how, len(src_data), declared, size, mapped_end))
    return Info(True, how, "by less than a block" if how == "short" and mapped_end - len(src_data) < bs else "by a block or more")


def foreign_st():
    return st.fixed_dictionaries({
        "g": g_st(), "how": st.sampled_from(["declared", "short", "short", "short", "nobmap"]), "num": gen.ints(0, 5000), "chk": st.booleans(),
        "verify": st.booleans(), "sync": st.booleans(), "file": st.booleans()})


# --- command line -----------------------------------------------------------


def run_cli(spec):
    g, image, data = prepare(spec)
    if data is None:
        return Info(False, "not applicable")
    d = util.scratch("shm")
    name = "x.img" + spec["ext"]
    with open(os.path.join(d, name), "wb") as f:
        f.write(comp.pack("gz", image, d) if spec["ext"] else image)
    with open(os.path.join(d, "x.img.bmap"), "wb") as f:
        f.write(data)
    res = util.run_cli(["copy", name, "out"] + ([] if spec["verify"] else ["--no-verify"]), d)
    check(res.code != 0, "the bmap has a fault (%r), but: %r", spec["edit"], res)
    check(res.code > 0, "the tool died: %r", res)
    check("ERROR" in res.err, "the bmap has a fault (%r), but there is no message: %r", spec["edit"], res)
    return Info(True, "fault " + spec["edit"][0])


def cli_st():
    return st.fixed_dictionaries({
        "g": g_st(), "edit": edit_st(), "chk": st.booleans(), "cs": st.just("sha256"), "verify": st.booleans(), "ext": st.sampled_from(["", "", ".gz"])})


# --- any file at all --------------------------------------------------------


def run_fuzz(spec):
    """A bmap which went through some mutations: it is obeyed, or refused, but nothing else."""
    util.patch_os()
    g = spec["g"]
    bs, size = g["bs"], g["size"]
    image = content({"seed": 5}, size)
    data = util.build_bmap(g["version"], size, bs, g["ranges"], image if spec["chk"] else None, cs_type=spec["cs"], style=g["style"])
    data = badbmap.mutate(data, spec["ops"])
    if spec["sign"]:
        data = badbmap.sign(data)
    try:
        new_bs, ranges = badbmap.read(data, image)
        state, why = "fine", "obeyed"
    except badbmap.No as exc:
        state, why = "wrong", str(exc)
    except badbmap.Unclear as exc:
        state, why = "unclear", str(exc)
    d = util.scratch("shm")
    path = os.path.join(d, "out")
    with open(os.path.join(d, "x.img"), "wb") as f:
        f.write(image)
    if spec["cli"]:
        with open(os.path.join(d, "x.bmap"), "wb") as f:
            f.write(data)
        res = util.run_cli(["copy", "--bmap", "x.bmap", "x.img", "out"], d)
        check(res.code in (0, 1), "a mutated bmap (%s: %s) broke the tool: %r", state, why, res)
        check(res.code == 0 or "ERROR" in res.err, "a mutated bmap (%s: %s) was refused without a message: %r", state, why, res)
        good, what = res.code == 0, repr(res)
    else:
        dest = util.open_dest(path, Recorder(), "wb+")
        with open(os.path.join(d, "x.img"), "rb") as src:
            out = do_copy(src, dest, bmap_file(d, data), None, spec["sync"], True)
        dest.close()
        if state == "unclear" and isinstance(out.exc, (MemoryError, OverflowError)):
            return Info(False, "blocks too big to be read")
        check(out.kind in ("ok", "error"), "a mutated bmap (%s: %s) should be obeyed or refused, but: %r", state, why, out)
        good, what = out.kind == "ok", repr(out)
    if state == "wrong":
        check(not good, "%s, but the copy succeeded", why)
    if state == "fine":
        check(good, "the bmap still makes sense after the mutations, but: %s", what)
        want = bytearray(size)
        for a, b in ranges:
            want[a * new_bs:(b + 1) * new_bs] = image[a * new_bs:(b + 1) * new_bs]
        with open(path, "rb") as f:
            got = f.read()
        check(got == bytes(want), "not what the bmap says was written (ranges %r)", ranges[:5])
    kinds = ["op " + op[0] for op in spec["ops"]]
    return Info(state != "unclear", state, "outcome " + ("ok" if good else "error"), "via command line" if spec["cli"] else "via classes", *kinds)


def fuzz_st():
    return st.fixed_dictionaries({
        "g": gen.geometry(max_bytes=300000, sizes=gen.weighted((3, st.just(4096)), (2, st.sampled_from([512, 1000, 65536]))), nonempty=True),
        "ops": st.lists(badbmap.op_st(), min_size=1, max_size=4), "chk": st.booleans(), "cs": st.sampled_from(["sha256", "sha1", "sha512"]), "sync": st.booleans(),
        "sign": gen.weighted((4, st.just(True)), (1, st.just(False))), "cli": gen.weighted((12, st.just(False)), (1, st.just(True)))})


PROPERTY = Property(
    "K06",
    "Bmaps of every version with one fault each (newer major version, unknown hash, block counts and sizes that contradict each other, reversed ranges, ranges past the end, wrong "
    "mapped count, missing or junk fields, malformed versions, broken XML), correctly re-checksummed; images shorter than mapped or declared (by one byte to all); via the classes and "
    "the command line; the operation must fail, with the package's own error for the faults the statement lists; non-trivial: a fault is present.",
    [Facet("fault", strategy, run, quick=2000, thorough=30000, shards=4),
     Facet("foreign", foreign_st, run_foreign, quick=1000, thorough=15000, shards=3),
     Facet("cli", cli_st, run_cli, quick=250, thorough=4000, shards=2, noise="vsp"),
     Facet("fuzz", fuzz_st, run_fuzz, quick=2500, thorough=60000, shards=4)],
    ["a source's read(n) returns fewer than n bytes only at the end of the data"],
)
