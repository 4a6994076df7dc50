"""T01: any supported image yields its uncompressed bytes, wherever it comes from."""

import os
import shutil

from hypothesis import strategies as st

from pbt import comp, gen, remote, util
from pbt.copyh import check_same, image_content
from pbt.core import Facet, Info, Property, Violation
from pbt.util import check, content

KB = 1024
SIZES = st.one_of(gen.ints(1, 9000), st.sampled_from([1, 511, 512, 513, 10239, 10240, 10241, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, (1 << 20) - 1]), gen.ints(1, 3 << 20))
READS = st.lists(st.one_of(gen.ints(0, 5000), st.sampled_from([1, 4096, 65536, 1 << 20, 3 << 20])), min_size=1, max_size=6)
PACK = st.fixed_dictionaries({"level": gen.ints(1, 9), "streams": st.sampled_from([1, 1, 1, 2, 3]), "fmt": st.sampled_from(["gnu", "pax", "ustar"]), "abs": st.booleans(),
                              "dirs": st.booleans()})
STEMS = st.sampled_from(["i", "image.img", "my image.raw", "a.b.c", "x.tar.img", "gz", "-dash", "we'ird \"$(x);&|\\n", "ünïcode-ß", "i.img.bz2.old", "100%41"])


def slurp(obj, reads):
    """Everything, by the given read sizes over and over; 0 is a no-op, -1 all."""
    out = []
    i = 0
    while True:
        n = reads[i % len(reads)]
        buf = obj.read() if n == -1 else obj.read(n)
        i += 1
        if n == 0:
            check(buf == b"", "read(0) returned %d bytes", len(buf))
            if all(r == 0 for r in reads[:len(reads)]):
                reads = [4096]
            continue
        check(n < 0 or len(buf) <= n, "read(%d) returned %d bytes", n, len(buf))
        if not buf:
            break
        out.append(buf)
        if len(out) > 200000:
            raise Violation("there is no end")
    check(obj.read(10) == b"", "there are data after the end")
    return b"".join(out)


def thin(reads, n):
    """Avoid millions of tiny reads."""
    return [r if r in (0, -1) or r * 20000 >= n * len(reads) else n // 1000 + r for r in reads]


def run(spec):
    d = util.scratch("ext")
    data = content(spec["img"], spec["n"])
    ext = spec["ext"]
    name = spec["stem"] + "." + ext
    packed = comp.pack(ext, data, d, spec["pack"])
    bins = None
    kw = {}
    if spec["tools"] is not None:
        names = remote.TOOLS + tuple(spec["tools"]["have"])
        bins = remote.bin_dir(names, decoys={n: k for n, k in spec["tools"]["decoys"].items() if k}, extra=remote.fake_ssh())
    src = remote.Source(spec["source"], d, name, packed, bins=bins, **kw)
    if spec["source"] == "pipe":
        # Nobody knows what it is
        data = packed
    obj = src.open()
    with remote.path_env(**src.env):
        try:
            got = slurp(obj, thin(spec["reads"], len(data)))
            if spec["source"] != "pipe":
                check(obj.size is None, "the size of a compressed image was said to be %r", obj.size)
        finally:
            obj.close()
    check_same(got, data, "the data read", 4096)
    return Info(True, ext, spec["source"], "several streams" if spec["pack"]["streams"] > 1 else "one stream", "reduced programs" if bins else "all programs")


def strategy():
    decoy = gen.weighted((4, st.just("")), (1, st.sampled_from(["dir", "data"])))
    tools = st.fixed_dictionaries({"have": st.lists(st.sampled_from(remote.OPTIONAL), unique=True).map(sorted), "decoys": st.fixed_dictionaries({"pigz": decoy, "pbzip2": decoy})})
    return st.fixed_dictionaries({
        "ext": st.sampled_from(sorted(comp.EXTS)), "stem": STEMS, "n": SIZES, "img": image_content, "pack": PACK, "reads": READS,
        "source": gen.weighted((4, st.just("path")), (6, st.sampled_from([s for s in remote.SOURCES if s not in ("path", "pipe")])), (0, st.just("pipe"))),
        "tools": gen.weighted((3, st.none()), (2, tools))})


NEEDS = {"gz": ("gzip", "pigz"), "bz2": ("bzip2", "pbzip2"), "xz": ("xz",), "lzo": ("lzop",), "lz4": ("lz4",), "zst": ("zstd",), "zip": ("funzip",), "tar": ("tar",)}


def run_missing(spec):
    from bmaptools import TransRead

    d = util.scratch("ext")
    ext = spec["ext"]
    arch, kind = comp.EXTS[ext]
    data = content({"seed": 1}, 5000)
    needs = [NEEDS[k] for k in (arch, kind) if k]
    gone = needs[spec["which"] % len(needs)]
    names = [n for n in remote.TOOLS + remote.OPTIONAL if n not in gone]
    bins = remote.bin_dir(names, decoys={n: spec["decoy"] for n in gone} if spec["decoy"] else None, extra=remote.fake_ssh())
    src = remote.Source(spec["source"], d, "i." + ext, comp.pack(ext, data, d), bins=bins)
    try:
        obj = src.open()
    except TransRead.Error as exc:
        check(any('"%s"' % g in str(exc) or "'%s'" % g in str(exc) or g in str(exc).replace(src.url, "").replace(bins, "") for g in gone),
              "%s is not there, but the error is: %s", gone, exc)
        return Info(True, "missing " + gone[0])
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation("%s is not there; opening gave %s: %s" % (gone, type(exc).__name__, exc))
    obj.close()
    raise Violation("%s is not there, but opening %s succeeded" % (gone, ext))


def missing_st():
    return st.fixed_dictionaries({"ext": st.sampled_from(sorted(comp.EXTS)), "which": gen.ints(0, 1), "decoy": st.sampled_from(["", "", "dir", "data"]),
                                  "source": st.sampled_from(["path", "http", "fileurl"])})


def run_plain(spec):
    d = util.scratch("ext")
    data = content(spec["img"], spec["n"])
    if spec["looks"] and spec["n"] < 200000:
        # Contents which look compressed, the name decides
        data = comp.pack(spec["looks"], data, d)
    name = spec["stem"] + ("." + spec["ext"] if spec["ext"] else "")
    src = remote.Source(spec["source"], d, name, data)
    obj = src.open()
    with remote.path_env(**src.env):
        try:
            if spec["source"] == "path":
                check(obj.size == len(data), "the size is %d but was said to be %r", len(data), obj.size)
            got = slurp(obj, thin(spec["reads"], len(data)))
        finally:
            obj.close()
    check_same(got, data, "the data read", 4096)
    return Info(True, "plain", spec["source"], "looks compressed" if spec["looks"] else "ordinary")


def plain_st():
    return st.fixed_dictionaries({
        "ext": st.sampled_from(comp.PLAIN), "stem": STEMS, "n": st.one_of(st.just(0), SIZES), "img": image_content, "reads": READS,
        "looks": gen.weighted((3, st.just("")), (1, st.sampled_from(["gz", "xz", "tgz", "zip"]))), "source": st.sampled_from(remote.SOURCES)})


def run_cli(spec):
    d = util.scratch("ext")
    data = content(spec["img"], spec["n"])
    ext = spec["ext"]
    name = "image" + ("." + ext if ext else "")
    packed = comp.pack(ext, data, d, spec["pack"]) if ext else data
    kind = spec["source"]
    stdin = None
    if kind == "stdin":
        stdin = data
        src, image, env = None, "-", {}
    else:
        src = remote.Source(kind, d, name, packed)
        image, env = src.url, src.env
        if kind == "path" and spec["relative"]:
            image = name
    args = ["copy", "--nobmap", image, "dst"]
    with open(os.path.join(d, "image.bmap"), "wb") as f:
        f.write(util.build_bmap("2.0", len(data), 4096, [[0, (len(data) - 1) // 4096]], data))
    if spec["bmap"]:
        args = ["copy", "--bmap", "image.bmap", image, "dst"]
    res = util.run_cli(args, d, stdin=stdin, env=env)
    check(res.code == 0, "%r failed: %r", args, res)
    with open(os.path.join(d, "dst"), "rb") as f:
        check_same(f.read(), data, "the copy", 4096)
    return Info(True, ext or "plain", kind, "bmap" if spec["bmap"] else "no bmap")


def cli_st():
    return st.fixed_dictionaries({
        "ext": st.one_of(st.sampled_from(sorted(comp.EXTS)), st.just("")), "n": SIZES, "img": image_content, "pack": PACK, "relative": st.booleans(), "bmap": st.booleans(),
        "source": st.sampled_from(["path", "http", "http-chunked", "fileurl", "ssh", "stdin"])})


_B = {"stem": "i", "n": 300001, "img": {"kind": "rand", "seed": 1}, "reads": [1 << 20], "tools": None, "pack": {"level": 1, "streams": 1, "fmt": "gnu", "abs": False, "dirs": False}}
CORNER = [dict(_B, ext=e, source=s) for e in sorted(comp.EXTS) for s in ("path", "http")]
CORNER += [dict(_B, ext=e, source="path", tools={"have": [], "decoys": {"pigz": "", "pbzip2": ""}}) for e in ("gz", "bz2", "tgz", "tbz")]
CORNER += [dict(_B, ext=e, source="path", n=0) for e in ("gz", "bz2", "xz", "zst", "lz4", "tgz")]

PROPERTY = Property(
    "T01",
    "Images of 1 byte to 3 MiB, compressed and archived by other implementations (several levels, several compressed streams, three archive formats, directories in the archive) under every "
    "documented extension, and under other names, read from a path, HTTP (with a length, chunked, until closed), file URLs, a stand-in for ssh, or standard input, with all read sizes and with "
    "decompressor programs missing (the image must be refused if none is left) or shadowed by things which are no programs; through the class and the command line. Every case is non-trivial.",
    [Facet("packed", strategy, run, quick=700, thorough=9000, shards=4, corner=CORNER),
     Facet("plain", plain_st, run_plain, quick=250, thorough=3000, shards=2),
     Facet("missing", missing_st, run_missing, quick=80, thorough=600, shards=1),
     Facet("cli", cli_st, run_cli, quick=200, thorough=2500, shards=2, noise="vspn")],
    ["gzip, bzip2, xz (Python's libraries), lzop, lz4, zstd (the programs) compress properly"],
)
