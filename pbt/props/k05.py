"""K05: any alteration of a self-checksummed bmap is rejected before writing."""

import hashlib
import os
import re
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from pbt import bdev, gen, util
from pbt.copyh import bmap_file, do_copy
from pbt.core import REPO, Facet, Info, Property
from pbt.util import MemImage, Recorder, build_bmap, check, content

DATA = os.path.join(REPO, "tests", "test-data")


def original(spec, d):
    """(bmap bytes, image bytes or None)"""
    src = spec["src"]
    g = spec["g"]
    image = content({"seed": 3}, g["size"])
    if src == "create":
        from bmaptools import BmapCreate

        path = os.path.join(d, "orig.img")
        with open(path, "wb") as f:
            f.truncate(g["size"])
            for a, b in g["ranges"]:
                s, e = a * g["bs"], min((b + 1) * g["bs"], g["size"])
                os.pwrite(f.fileno(), image[s:e], s)
        out = os.path.join(d, "orig.bmap")
        creator = BmapCreate.BmapCreate(path, out, spec["cs"])
        creator.generate(spec["chk"])
        del creator
        with open(out, "rb") as f, open(path, "rb") as g2:
            return f.read(), g2.read()
    return build_bmap(g["version"], g["size"], g["bs"], g["ranges"], image if spec["chk"] else None, cs_type=spec["cs"], style=g["style"]), image


def exempt(data):
    """Does the file declare a format which has no checksum of its own?"""
    try:
        version = ET.fromstring(data).attrib.get("version", "")
        major, minor = [int(x) for x in version.split(".", 1)]
    except (ET.ParseError, ValueError, LookupError):
        return False
    return (major, minor) < (1, 3)


def reject(data, image, d, dest_kind="file"):
    """The altered bmap must fail and nothing may be written."""
    f = bmap_file(d, data)
    src = MemImage(image)
    if dest_kind == "dev":
        dev = bdev.FakeBdev(d, len(image) + 4096, b"")
        rec = dev.rec
        with dev:
            dest = open(dev.path, "wb")
            out = do_copy(src, dest, f, bdev=True)
            dest.close()
    else:
        rec = Recorder()
        dest = util.open_dest(os.path.join(d, "dest"), rec, "wb+")
        out = do_copy(src, dest, f)
        dest.close()
    f.close()
    check(out.kind != "ok", "the copy succeeded")
    check(not rec.total_written, "%d bytes were written before the failure %r", rec.total_written, out)
    check(src.reads == 0 or rec.total_written == 0, "data were written")
    return out


def alter(data, change):
    """One alteration of the file; positions are taken modulo its length."""
    k, num, val = change
    n = len(data)
    pos = num % n if n else 0
    if k == "xor":
        return data[:pos] + bytes([data[pos] ^ val]) + data[pos + 1:]
    if k == "set":
        return data[:pos] + bytes([val]) + data[pos + 1:]
    if k == "ins":
        return data[:pos] + bytes([val]) + data[pos:]
    if k == "del":
        return data[:pos] + data[pos + 1 + val % 8:]
    if k == "cut":
        return data[:pos]
    if k == "behead":
        return data[pos:]
    if k == "add":
        tail = [b"\n", b" ", b"\0", b"x", b"<!-- -->", b"\r\n", b"   \n\n", b"</bmap>", data][val % 9]
        return data + tail
    if k == "pre":
        return [b"\n", b" ", b"\xef\xbb\xbf", b"<!-- a -->"][val % 4] + data
    if k == "tail":
        # Without the last bytes
        return data[:-(1 + val % 12)]
    if k == "crlf":
        return data.replace(b"\n", b"\r\n")
    if k == "untab":
        return data.replace(b"    ", b"  ", 1 + val % 5)
    if k == "zeros":
        n = min(val + 1, n - pos)
        return data[:pos] + bytes(n) + data[pos + n:]
    if k == "digit":
        # Another digit somewhere
        spots = [m.start() for m in re.finditer(rb"[0-9]", data)]
        if not spots:
            return data
        p = spots[num % len(spots)]
        return data[:p] + b"%d" % ((data[p] - 48 + 1 + val % 9) % 10) + data[p + 1:]
    if k == "word":
        # Words and tags
        a, b = [(b"sha256", b"sha3_256"), (b"sha256", b"md5"), (b"Range", b"range"), (b"BlockMap>", b"blockMap>"), (b"chksum", b"sha1"), (b"sha1", b"chksum"),
                (b"<!--", b"<!-- x"), (b"BmapFileChecksum", b"BmapFileSHA1"), (b"BmapFileSHA1", b"BmapFileChecksum"), (b" ", b""), (b'"', b"'"),
                (b"ChecksumType", b"Type"), (b"sha256", b"SHA256"), (b"-", b" - ")][val % 14]
        cnt = data.count(a)
        if not cnt:
            return data
        parts = data.split(a)
        i = num % cnt
        if num % 3 == 0:
            return data.replace(a, b)
        return a.join(parts[:i + 1]) + b + a.join(parts[i + 1:])
    if k == "range":
        # A range less, twice, or two exchanged
        items = list(re.finditer(rb"[ \t]*<Range.*?</Range>\s*?\n", data, re.S))
        if not items:
            return data
        m = items[num % len(items)]
        if val % 3 == 0:
            return data[:m.start()] + data[m.end():]
        if val % 3 == 1:
            return data[:m.end()] + m.group(0) + data[m.end():]
        o = items[(num // 7) % len(items)]
        m, o = sorted((m, o), key=lambda x: x.start())
        if m is o:
            return data
        return data[:m.start()] + o.group(0) + data[m.end():o.start()] + m.group(0) + data[o.end():]
    if k == "hexcase":
        spots = list(re.finditer(rb"[0-9a-f]{32,}", data))
        if not spots:
            return data
        m = spots[num % len(spots)]
        return data[:m.start()] + m.group(0).upper() + data[m.end():]
    if k == "move":
        # A piece of the text goes elsewhere
        n = 1 + val
        piece = data[pos:pos + n]
        rest = data[:pos] + data[pos + n:]
        p = (num // 3) % (len(rest) + 1)
        return rest[:p] + piece + rest[p:]
    raise AssertionError(k)


def run(spec):
    util.patch_os()
    d = util.scratch("ext" if spec["src"] == "create" else "shm")
    data, image = original(spec, d)
    bad = data
    for change in spec["changes"]:
        bad = alter(bad, change)
    kinds = [c[0] for c in spec["changes"]]
    if bad == data:
        return Info(False, "no change")
    if exempt(bad):
        return Info(False, "older format declared")
    try:
        ET.fromstring(bad)
        wf = "well-formed"
    except ET.ParseError:
        wf = "not well-formed"
    if spec["cli"]:
        with open(os.path.join(d, "x.bmap"), "wb") as f:
            f.write(bad)
        with open(os.path.join(d, "x"), "wb") as f:
            f.write(image)
        res = util.run_cli(["copy", "x", "out"] + (["--no-verify"] if spec["nov"] else []), d)
        check(res.code != 0, "the bmap was altered (%r), but: %r", spec["changes"], res)
        path = os.path.join(d, "out")
        check(not os.path.exists(path) or os.stat(path).st_size == 0, "the bmap was altered, but %s has %d bytes",
              path, os.stat(path).st_size if os.path.exists(path) else 0)
    else:
        reject(bad, image, d, spec["dest"])
    return Info(True, wf, *["kind " + k for k in set(kinds)])


def small_g():
    return gen.geometry(max_bytes=200000, sizes=st.sampled_from([512, 1024, 4096]), versions=("1.3", "1.4", "2.0"), nonempty=True)


def strategy():
    return st.fixed_dictionaries({
        "src": gen.weighted((3, st.just("made")), (1, st.just("create"))),
        "g": small_g(),
        "cs": st.sampled_from(["sha256", "sha256", "sha1", "md5", "sha512"]),
        "chk": gen.weighted((3, st.just(True)), (1, st.just(False))),
        "changes": st.lists(st.tuples(
            st.sampled_from(["xor", "set", "ins", "del", "cut", "behead", "add", "pre", "tail", "crlf", "untab", "zeros", "digit", "digit", "digit", "word", "word", "range",
                             "hexcase", "move"]),
            gen.ints(0, 5000), gen.ints(1, 255)).map(list), min_size=1, max_size=2),
        "dest": gen.weighted((5, st.just("file")), (1, st.just("dev"))),
        "cli": gen.weighted((9, st.just(False)), (1, st.just(True))),
        "nov": st.booleans(),
    })


def run_sweep(spec):
    """Every position of a small file."""
    util.patch_os()
    d = util.scratch("ext" if spec["src"] == "create" else "shm")
    data, image = original(spec, d)
    how = spec["how"]
    n = 0
    start = spec["part"] * len(data) // spec["parts"]
    end = (spec["part"] + 1) * len(data) // spec["parts"]
    for pos in range(start, end):
        bad = alter(data, [how, pos, spec["val"]])
        if bad == data or exempt(bad):
            continue
        try:
            reject(bad, image, d)
        except Exception as exc:
            raise type(exc)("%s at offset %d of the bmap (%r): %s" % (how, pos, data[max(0, pos - 20):pos + 10], exc))
        n += 1
    return Info(n > 0, "%d alterations swept" % (n // 100 * 100))


_SMALL = {"bs": 4096, "size": 10 * 4096 - 5, "ranges": [[0, 0], [2, 4], [9, 9]], "style": 0}


def sweep_st():
    return st.fixed_dictionaries({
        "src": st.sampled_from(["made", "create"]),
        "g": st.tuples(st.sampled_from(["1.3", "1.4", "2.0"]), gen.ints(0, 59)).map(lambda t: dict(_SMALL, version=t[0], style=t[1])),
        "cs": st.sampled_from(["sha256", "sha1"]),
        "chk": st.just(True),
        "how": st.sampled_from(["xor", "xor", "ins", "del", "cut", "set"]),
        "val": st.sampled_from([1, 2, 4, 8, 16, 32, 64, 128, 255]).map(lambda v: v),
        "part": gen.ints(0, 3), "parts": st.just(4),
    })


SWEEP = [{"src": src, "g": dict(_SMALL, version=ver, style=1), "cs": "sha256", "chk": True, "how": how, "val": val, "part": part, "parts": 4}
         for src, ver in (("made", "1.3"), ("made", "1.4"), ("create", "2.0")) for how, val in (("xor", 1), ("cut", 1)) for part in range(4)]


def run_samples(spec):
    """The sample files of the repository."""
    util.patch_os()
    d = util.scratch("shm")
    path = os.path.join(DATA, spec["file"])
    if not os.path.exists(path):
        return Info(False, "no sample")
    with open(path, "rb") as f:
        data = f.read()
    bad = alter(data, spec["change"])
    if bad == data or exempt(bad):
        return Info(False, "no change or older format")
    reject(bad, bytes(4096), d)
    return Info(True, spec["file"])


def samples_st():
    return st.fixed_dictionaries({
        "file": st.sampled_from(["test.image.bmap.v1.3", "test.image.bmap.v1.4", "test.image.bmap.v2.0"]),
        "change": st.tuples(st.sampled_from(["xor", "ins", "del", "cut", "digit", "range", "add", "word", "move"]), gen.ints(0, 60000), gen.ints(1, 255)).map(list)})


def run_large(spec):
    """Files of up to several MiB: many ranges, or long comments."""
    util.patch_os()
    d = util.scratch("shm")
    g = spec["g"]
    size = (2 * g["n"] + 1) * 512
    image = util.fast_pattern(5, size)
    data = build_bmap(g["version"], size, 512, [[2 * i, 2 * i] for i in range(g["n"])], image if spec["chk"] else None, cs_type=spec["cs"], style=g["style"], checksums=spec["chk"])
    if spec["pad"]:
        pad = b"<!-- " + util.fast_pattern(9, spec["pad"] << 10).translate(bytes(97 + i % 26 for i in range(256))) + b" -->\n"
        tag = re.search(rb"<BmapFile(Checksum|SHA1)>\s*([0-9a-f]+)", data)
        zero = data[:tag.start(2)] + b"0" * len(tag.group(2)) + data[tag.end(2):]
        pos = {"head": data.index(b"<ImageSize"), "map": data.index(b"<Range"), "end": data.index(b"</bmap>"), "after": len(data)}[spec["where"]]
        cs = "sha1" if tag.group(1) == b"SHA1" else spec["cs"]
        zero = zero[:pos] + pad + zero[pos:]
        digest = hashlib.new(cs, zero).hexdigest().encode()
        at = tag.start(2) + (len(pad) if pos <= tag.start(2) else 0)
        data = zero[:at] + digest + zero[at + len(digest):]
    if not spec["changes"]:
        dest = open(os.path.join(d, "dest"), "wb+")
        out = do_copy(MemImage(image), dest, bmap_file(d, data))
        dest.close()
        check(out.kind == "ok", "the bmap of %d bytes is right, but: %r", len(data), out)
        return Info(True, "unaltered")
    bad = data
    for k, num, val in spec["changes"]:
        bad = alter(bad, [k, num * len(bad) // 100000 + val, val])
    if bad == data or exempt(bad):
        return Info(False, "no change or older format")
    reject(bad, image, d)
    return Info(True, "%d KiB" % (len(data) >> 18 << 8), *["kind " + k for k in {c[0] for c in spec["changes"]}])


def large_st():
    return st.fixed_dictionaries({
        "g": st.fixed_dictionaries({"version": st.sampled_from(["1.3", "1.4", "2.0"]), "n": st.sampled_from([1, 10, 1000, 8000]), "style": gen.ints(0, 59)}),
        "cs": st.sampled_from(["sha256", "sha1", "md5", "sha512"]), "chk": st.booleans(), "pad": st.one_of(st.just(0), gen.ints(1, 4500)), "where": st.sampled_from(["head", "map", "end", "after"]),
        "changes": gen.weighted((1, st.just([])), (12, st.lists(st.tuples(
            st.sampled_from(["xor", "set", "ins", "del", "cut", "behead", "add", "tail", "zeros", "digit", "digit", "range", "move"]), gen.ints(0, 99999), gen.ints(1, 255)).map(list), min_size=1, max_size=1)))})


PROPERTY = Property(
    "K05",
    "Self-checksummed bmaps (1.3, 1.4, 2.0; hand-made, generated by the tool, and the repository's samples) with byte, text, digit, tag, range and length alterations, and sweeps over "
    "every byte offset of small files; files of several MiB (thousands of ranges, long comments) altered anywhere; the file must be rejected with no byte written; alterations that make the file declare an older format are left out; "
    "non-trivial: the file was altered and is not exempt.",
    [Facet("alter", strategy, run, quick=4800, thorough=60000, shards=5),
     Facet("sweep", sweep_st, run_sweep, quick=24, thorough=600, shards=4, corner=SWEEP, timeout=60),
     Facet("large", large_st, run_large, quick=480, thorough=4000, shards=3),
     Facet("samples", samples_st, run_samples, quick=400, thorough=3000, shards=1, noise="vsp")],
    ["the hash functions have no accidental collisions"],
)
