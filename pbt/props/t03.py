"""T03: a damaged or cut-short source is an error, not a shorter image."""

import os
import subprocess

from hypothesis import strategies as st

from pbt import comp, gen, remote, util
from pbt.copyh import bmap_file, do_copy, image_content
from pbt.core import Facet, Info, Property, Skip, Violation
from pbt.util import build_bmap, check, content

# How a user would look whether a file can be decompressed, and the statuses which mean "it can, with a warning"
TOOL = {
    "gz": (["gzip", "-dc"], (0, 2)), "bz2": (["bzip2", "-dc"], (0,)), "xz": (["xz", "-dc"], (0, 2)), "lzo": (["lzop", "-dc"], (0, 2)), "lz4": (["lz4", "-dc"], (0,)),
    "zst": (["zstd", "-dcq"], (0,)), "zip": (["funzip"], (0,)),
}
TARFLAG = {"gz": "-z", "bz2": "-j", "xz": "-J", "lzo": "--lzo", "lz4": "-Ilz4", "zst": "-Izstd"}
EXT = sorted(comp.EXTS)
# Of the member in archives: always the same, so that damage hits the same thing whenever a case is repeated
MEMBER_DIR = "/tmp/bmap-tools-verif-t03"


def tool_accepts(ext, stored):
    """(does the decompressor accept the file, what it gives)"""
    arch, kind = comp.EXTS[ext]
    if arch == "tar":
        cmd, good = ["tar", "-x", TARFLAG[kind], "-O", "-P", "-C", util.scratch("ext")], (0,)
    else:
        cmd, good = TOOL["zip" if arch == "zip" else kind]
    proc = subprocess.run(cmd, input=stored, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=False)
    if kind == "gz" and not arch:
        # pigz is an alternative; only what both refuse counts
        other = subprocess.run(["pigz", "-dc"], input=stored, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=False)
        return proc.returncode in good or other.returncode in good, proc.stdout
    if kind == "bz2" and not arch:
        other = subprocess.run(["pbzip2", "-dc"], input=stored, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=False)
        return proc.returncode in good or other.returncode in good, proc.stdout
    return proc.returncode in good, proc.stdout


def mind_changed(ext, stored):
    """
    Does tar accept the file at times? When only what follows the end of the archive is damaged, it depends on who is faster: tar closing the pipe (fine), or the decompressor failing.
    """
    return comp.EXTS[ext][0] == "tar" and any(tool_accepts(ext, stored)[0] for _ in range(60))


def damage(spec, stored):
    """-> (damaged bytes, only cut?)"""
    kind = spec[0]
    n = len(stored)
    if kind == "cut":
        return stored[:min(spec[1] * n // 10000, n - 1)], True
    if kind == "cut-end":
        return stored[:max(n - 1 - spec[1], 0)], True
    if kind == "flip":
        pos = min(spec[1] * n // 10000, n - 1)
        return stored[:pos] + bytes([stored[pos] ^ (1 << spec[2] % 8)]) + stored[pos + 1:], False
    if kind == "zero":
        pos = min(spec[1] * n // 10000, n - 1)
        end = min(pos + 1 + spec[2], n)
        return stored[:pos] + bytes(end - pos) + stored[end:], False
    if kind == "other":
        return b"this is not compressed at all\n" * (spec[1] // 500 + 1), False
    raise KeyError(kind)


def read_all(src, step):
    """-> (data, exception)"""
    out = []
    obj = None
    with remote.path_env(**src.env):
        try:
            obj = src.open()
            while True:
                buf = obj.read(step) if step else obj.read()
                if not buf:
                    return b"".join(out), None
                out.append(buf)
        except Violation:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            # (not always the reader's own: http.client has one for cut chunks)
            return b"".join(out), exc
        finally:
            if obj is not None:
                obj.close()


def run_packed(spec):
    d = util.scratch("ext")
    data = content(spec["img"], spec["n"])
    ext = spec["ext"]
    stored, cut = damage(spec["damage"], comp.pack(ext, data, MEMBER_DIR, spec["pack"]))
    good, given = tool_accepts(ext, stored)
    if good:
        return Info(False, "the decompressor does not mind")
    bins = None
    if spec.get("plain_tools"):
        bins = remote.bin_dir(remote.TOOLS, extra=remote.fake_ssh())
    src = remote.Source(spec["source"], d, "i." + ext, stored, bins=bins)
    got, exc = read_all(src, spec["step"])
    what = "%s, %r, %d of %d bytes are left" % (ext, spec["damage"], len(stored), len(data))
    if exc is None and mind_changed(ext, stored):
        return Info(False, "tar accepts it at times")
    check(exc is not None, "%s: the decompressor refuses it, but reading to the end gave %d of %d bytes and no error", what, len(got), len(data))
    check(str(exc).strip(), "%s: the error has no text", what)
    if cut:
        # (funzip makes data up at the end)
        check(data.startswith(got) or given.startswith(got), "%s: the data before the error are not those of the image", what)
    return Info(True, ext, spec["source"], "cut" if cut else "damaged", "some data" if got else "no data", *(["no parallel tools"] if bins else []))


# Programs which decompress, and whether status 2 means "there was a warning"
PROGRAM = {"gz": (("gzip", "pigz"), True), "bz2": (("bzip2", "pbzip2"), False), "xz": (("xz",), True), "lzo": (("lzop",), True), "lz4": (("lz4",), False), "zst": (("zstd",), False),
           "zip": (("funzip",), False)}
DYING = """#!/bin/sh
%s "$@" | head -c %d
%s
"""


def run_dies(spec):
    """The decompressor (or the ssh client) fails or is killed after giving a part of the image."""
    d = util.scratch("ext")
    data = content(spec["img"], spec["n"])
    ext = spec["ext"]
    arch, kind = comp.EXTS[ext]
    stored = comp.pack(ext, data, MEMBER_DIR, spec["pack"])
    how = spec["how"]
    if arch == "tar":
        names, warns = ("tar",), False
    else:
        names, warns = PROGRAM["zip" if arch == "zip" else kind]
    if warns and how == 2:
        how = 3
    keep = spec["keep"] * (len(data) + 1) // 10000
    end = "exit %d" % how if how > 0 else "kill %d $$\nsleep 20" % how
    extra = remote.fake_ssh()
    import shutil

    for n in names:
        real = shutil.which(n)
        if real and (n == names[0] or not spec["plain_tools"]):
            extra[n] = DYING % (real, keep, end)
    bins = remote.bin_dir(tuple(n for n in remote.TOOLS if n not in extra), extra=extra)
    src = remote.Source(spec["source"], d, "i." + ext, stored, bins=bins)
    what = "%s, the %s program gives %d of %d bytes and ends with %s" % (ext, names[0], keep, len(data), "status %d" % how if how > 0 else "signal %d" % -how)
    if spec["cli"]:
        res = util.run_cli(["copy", "--nobmap", src.url, "dst"], d, env=src.env)
        check(res.code != 0, "%s: the copy succeeded: %r", what, res)
        check(res.err.strip(), "%s: the copy failed without a message: %r", what, res)
    else:
        got, exc = read_all(src, spec["step"])
        check(exc is not None, "%s: reading to the end gave %d bytes and no error", what, len(got))
        check(data.startswith(got), "%s: the data before the error are not those of the image", what)
    return Info(True, ext, spec["source"], "signal" if how < 0 else "status", "command line" if spec["cli"] else "class")


def dies_st():
    return st.fixed_dictionaries({
        "ext": st.sampled_from(EXT), "img": image_content, "n": SIZES, "pack": PACK, "step": st.sampled_from([1 << 20, 4096, 0, 3 << 20]), "keep": st.one_of(gen.ints(0, 9999), st.just(10000)),
        "how": st.sampled_from([1, 2, 3, 127, 141, 255, -9, -9, -11, -15, -6]), "plain_tools": st.booleans(), "cli": st.booleans(), "source": st.sampled_from(["path", "path", "http", "ftp", "ssh"])})


DAMAGE = gen.weighted(
    (4, st.tuples(st.just("cut"), gen.ints(0, 9999)).map(list)), (3, st.tuples(st.just("cut-end"), gen.ints(0, 30)).map(list)),
    (3, st.tuples(st.just("flip"), gen.ints(0, 9999), gen.ints(0, 7)).map(list)), (1, st.tuples(st.just("zero"), gen.ints(0, 9999), gen.ints(0, 3000)).map(list)),
    (1, st.tuples(st.just("other"), gen.ints(0, 9999)).map(list)))
PACK = st.fixed_dictionaries({"level": gen.ints(1, 9), "streams": st.sampled_from([1, 1, 2]), "fmt": st.sampled_from(["gnu", "pax", "ustar"])})
# How an FTP server ends a transfer which it does not finish
ENDS = st.sampled_from(["226", "426", "drop"])
# How the ssh client ends then
CODES = st.sampled_from([255, 255, 1, 2, 130, -9, -15])
SIZES = st.one_of(gen.ints(1, 9000), st.sampled_from([1 << 20, (1 << 20) + 1, 65536]), gen.ints(1, 2 << 20))


def packed_st():
    return st.fixed_dictionaries({
        "ext": st.sampled_from(EXT), "img": image_content, "n": SIZES, "pack": PACK, "damage": DAMAGE, "step": st.sampled_from([1 << 20, 4096, 0, 1000, 3 << 20]),
        "source": st.sampled_from(["path", "path", "http", "http-chunked", "https", "ftp", "fileurl", "ssh"]), "plain_tools": gen.weighted((2, st.just(False)), (1, st.just(True)))})


def run_cut(spec):
    """A download which ends early."""
    d = util.scratch("ext")
    data = content(spec["img"], spec["n"])
    ext = spec["ext"]
    stored = comp.pack(ext, data, MEMBER_DIR, spec["pack"]) if ext else data
    kind = spec["source"]
    n = len(stored)
    cut = min(spec["cut"] * n // 10000, n - 1) if spec["from"] == "start" else max(n - 1 - spec["cut"] % 40, 0)
    if spec["from"] == "stream" and ext and "." not in ext and ext not in ("tgz", "zip") and len(data) > 1:
        # Exactly between two compressed streams: what arrives is a proper file
        half = comp.compress(comp.EXTS[ext][1], data[:len(data) // 2], spec["pack"]["level"])
        stored = half + comp.compress(comp.EXTS[ext][1], data[len(data) // 2:], spec["pack"]["level"])
        n, cut = len(stored), len(half)
    if ext in ("zip", "tgz") and tool_accepts(ext, stored[:cut])[0]:
        return Info(False, "what is missing comes after the image")
    if kind == "ssh":
        src = remote.Source(kind, d, "i." + (ext or "img"), stored, plan={"cut": cut, "code": spec.get("code", 255)})
    else:
        src = remote.Source(kind, d, "i." + (ext or "img"), stored, route={"cut": cut, "reset": spec["reset"], "chunk": spec["chunk"], "end": "reset" if spec["reset"] else spec["end"]})
    got, exc = read_all(src, spec["step"])
    what = "%s, %s, the download ends after %d of %d bytes" % (ext or "plain", kind, cut, n)
    check(exc is not None, "%s: reading to the end gave %d of %d bytes and no error", what, len(got), len(data))
    check(data.startswith(got) or ext == "zip", "%s: the data before the error are not those of the image", what)
    return Info(True, "download", kind, ext or "plain", "reset" if spec["reset"] else "closed")


def cut_st():
    return st.fixed_dictionaries({
        "ext": st.one_of(st.just(""), st.sampled_from(["gz", "bz2", "xz", "lz4", "zst", "lzo", "tgz", "zip"])), "img": image_content, "n": SIZES, "pack": PACK, "cut": gen.ints(0, 9999),
        "from": st.sampled_from(["start", "start", "end", "stream"]), "step": st.sampled_from([1 << 20, 4096, 0, 1000, 3 << 20]), "reset": st.booleans(), "chunk": st.sampled_from([40000, 1000, 1 << 20]),
        "source": st.sampled_from(["http", "http-chunked", "https", "https-chunked", "ftp", "ssh"]), "end": ENDS, "code": CODES})


def run_copy(spec):
    """Copies of such images fail, through the class or the command line."""
    d = util.scratch("ext")
    n = spec["n"]
    data = content(spec["img"], n)
    ext = spec["ext"]
    stored = comp.pack(ext, data, MEMBER_DIR, spec["pack"]) if ext else data
    kind = spec["source"]
    route = plan = None
    if ext and spec["damage"] is not None:
        stored, _ = damage(spec["damage"], stored)
        good, given = tool_accepts(ext, stored)
        if good:
            return Info(False, "the decompressor does not mind")
    else:
        if kind in ("path", "fileurl"):
            kind = "http"
        cut = min(spec["cut"] * len(stored) // 10000, len(stored) - 1)
        if ext and ("t" in ext or ext == "zip") and tool_accepts(ext, stored[:cut])[0]:
            return Info(False, "what is missing comes after the image")
        if kind == "ssh":
            plan = {"cut": cut, "code": spec.get("code", 255)}
        else:
            route = {"cut": cut, "reset": spec["reset"], "end": "reset" if spec["reset"] else spec["end"]}
    src = remote.Source(kind, d, "i." + (ext or "img"), stored, plan=plan, route=route)
    last = (n - 1) // 4096
    bmap = None
    if spec["bmap"]:
        # The last block is needed, most others are not; or only the first one is
        ranges = {"all": [[0, last]], "ends": [[0, 0], [last, last]] if last > 1 else [[0, last]], "start": [[0, 0]]}[spec["bmap"]]
        bmap = build_bmap("2.0", n, 4096, ranges, data if spec["sums"] else None)
    if spec["cli"]:
        args = ["copy"] + (["--bmap", "b.bmap"] if bmap else ["--nobmap"]) + [src.url, "dst"]
        if bmap:
            with open(os.path.join(d, "b.bmap"), "wb") as f:
                f.write(bmap)
        res = util.run_cli(args, d, env=src.env)
        ok, text = res.code == 0, repr(res)
    else:
        from bmaptools import TransRead

        with remote.path_env(**src.env):
            try:
                obj = src.open()
            except TransRead.Error as exc:
                return Info(True, "not even opened")
            dest = open(os.path.join(d, "dst"), "wb+")
            util.at_case_end(obj.close)
            out = do_copy(obj, dest, bmap_file(d, bmap) if bmap else None)
            dest.close()
        ok, text = out.kind == "ok", repr(out)
    if ok:
        with open(os.path.join(d, "dst"), "rb") as f:
            got = f.read()
        if bmap and not ext:
            # The part which is missing may not be needed
            for a, b in ranges:
                check(got[a * 4096:(b + 1) * 4096] == data[a * 4096:(b + 1) * 4096], "the image is damaged, blocks %d-%d of the copy are wrong, but the copy succeeded: %s", a, b, text)
            return Info(True, "the bmap did not need the damaged part")
        if ext and not (route or plan) and mind_changed(ext, stored):
            return Info(False, "tar accepts it at times")
        raise Violation("the image (%s, %s) is damaged or cut, but the copy (bmap: %s) succeeded: %s" % (ext or "plain", kind, spec["bmap"] or "none", text))
    return Info(True, "copy fails", kind, ext or "plain", spec["bmap"] or "no bmap", "command line" if spec["cli"] else "class")


def copy_st():
    return st.fixed_dictionaries({
        "ext": st.one_of(st.just(""), st.sampled_from(EXT)), "img": image_content, "n": SIZES, "pack": PACK, "damage": st.one_of(st.none(), DAMAGE), "cut": gen.ints(0, 9999), "reset": st.booleans(),
        "source": st.sampled_from(["path", "http", "http-chunked", "https", "ftp", "fileurl", "ssh"]), "end": ENDS, "bmap": st.sampled_from(["", "all", "ends", "start"]), "sums": st.booleans(), "cli": st.booleans(), "code": CODES})


_C = {"img": {"kind": "rand", "seed": 2}, "n": 150000, "pack": {"level": 1, "streams": 1, "fmt": "gnu"}, "step": 4096}
CORNER = [dict(_C, plain_tools=True, ext=e, damage=dm, source="path") for e in ("gz", "bz2") for dm in (["cut", 5000], ["flip", 5000, 3])]
CORNER += [dict(_C, ext=e, damage=dm, source="path") for e in EXT for dm in (["cut", 5000], ["cut-end", 0], ["cut", 0], ["other", 1])]
CORNER2 = [dict(_C, ext=e, cut=c, source=s, reset=False, chunk=40000, end="426", **{"from": "start"}) for e in ("", "gz", "tgz") for s in ("http", "http-chunked", "https", "https-chunked", "ftp", "ssh") for c in (0, 5000, 9999)]
CORNER2 += [dict(_C, ext=e, cut=0, source=s, reset=False, chunk=40000, end="226", **{"from": "stream"}) for e in ("gz", "bz2", "xz", "lz4", "zst") for s in ("http", "http-chunked", "https", "https-chunked", "ftp", "ssh")]

PROPERTY = Property(
    "T03",
    "Compressed images of every format cut at any place or with flipped, zeroed or foreign bytes, which a separate run of the decompressor refuses, and downloads (HTTP and HTTPS with a length or "
    "chunked, FTP, ssh) ending at any byte, by close or reset, decompressors and ssh clients which fail or are killed on the way; read to the end by several read sizes, and copied with and without a bmap through the class and the command line. Non-trivial: "
    "the decompressor refuses the file, fails or is killed, or the download is cut.",
    [Facet("packed", packed_st, run_packed, quick=700, thorough=9000, shards=4, corner=CORNER),
     Facet("dies", dies_st, run_dies, quick=200, thorough=3000, shards=2),
     Facet("cut", cut_st, run_cut, quick=400, thorough=5000, shards=2, corner=CORNER2, noise="vspn"),
     Facet("copy", copy_st, run_copy, quick=350, thorough=5000, shards=3, noise="vspn")],
    ["a file counts as damaged if the decompressor programs themselves (all alternatives) refuse it"],
)
