"""K04: a mapped range whose data does not match its checksum fails the copy."""

import os

from hypothesis import strategies as st

from pbt import bdev, gen, util
from pbt.copyh import bmap_file, check_same, do_copy, expected, image_content
from pbt.core import Facet, Info, Property
from pbt.props.k01 import make_image
from pbt.util import Intervals, Recorder, build_bmap, check, content


def damage(spec, image, g):
    """Apply the changes; returns (data, set of damaged bytes as Intervals)."""
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    data = bytearray(image)
    for what, idx, num, val in spec["changes"]:
        if size == 0:
            break
        if what == "any":
            pos = num % size
        elif not ranges:
            continue
        else:
            a, b = ranges[idx % len(ranges)]
            s, e = a * bs, min((b + 1) * bs, size)
            if what == "first":
                pos = s
            elif what == "last":
                pos = e - 1
            elif what == "in":
                pos = s + num % (e - s)
            elif what == "batch":
                # The last or first byte of a transfer batch
                batch = max((1 << 20) // bs, 1) * bs
                pos = min(s + (num % 4) * batch - (num // 4) % 2, e - 1)
                pos = max(pos, s)
            elif what == "after":
                pos = e
                if pos >= size:
                    continue
            elif what == "before":
                pos = s - 1
                if pos < 0:
                    continue
            elif what == "zero":
                # A lost block
                n = num % (b - a + 1)
                s += n * bs
                e = min(s + bs, size)
                data[s:e] = bytes(e - s)
                continue
            elif what == "swap":
                # Two blocks of the range in the wrong order
                if b > a and (b + 1) * bs <= size:
                    n = num % (b - a)
                    p, q = s + n * bs, s + (n + 1) * bs
                    data[p:p + bs], data[q:q + bs] = data[q:q + bs], data[p:p + bs]
                continue
            elif what == "shift":
                data[s:e] = data[s + 1:e] + data[s:s + 1]
                continue
            elif what == "other":
                # Contents of another range
                a2, b2 = ranges[num % len(ranges)]
                s2, e2 = a2 * bs, min((b2 + 1) * bs, size)
                n = min(e - s, e2 - s2)
                data[s:s + n] = image[s2:s2 + n]
                continue
            else:
                raise AssertionError(what)
        data[pos] ^= val
    return bytes(data)


def bad_ranges(spec, image, data, g):
    """Indices of the ranges whose contents differ from the image's."""
    bs, size = g["bs"], g["size"]
    return [i for i, (a, b) in enumerate(g["ranges"]) if image[a * bs:min((b + 1) * bs, size)] != data[a * bs:min((b + 1) * bs, size)]]


def run(spec):
    util.patch_os()
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch("shm")
    image = content(spec["img"], size)
    data = damage(spec, image, g)
    skip = [i for i in range(len(ranges)) if spec["skip"] and (i + spec["skip"]) % 3 == 0]
    forged = {idx % len(ranges): (how, num) for idx, how, num in spec["forge"]} if ranges else {}
    bad = [i for i in bad_ranges(spec, image, data, g) if i not in skip]
    bad += [i for i in forged if i not in skip]
    bmap = build_bmap(g["version"], size, bs, ranges, image, cs_type=spec["cs"], style=g["style"], skip_chksum=skip, bad_chksum=forged)
    old = b""
    if spec["dest"] == "dev":
        old = util.fast_pattern(3, size + 100)
        dev = bdev.FakeBdev(d, len(old), old)
        with dev:
            dest = open(dev.path, "wb")
            out = do_copy(make_image(spec, d, data), dest, bmap_file(d, bmap), None, spec["sync"], spec["verify"], bdev=True)
            dest.close()
        got = dev.contents()
    else:
        path = os.path.join(d, "dest")
        dest = util.open_dest(path, Recorder(), "wb+")
        out = do_copy(make_image(spec, d, data), dest, bmap_file(d, bmap), None, spec["sync"], spec["verify"])
        dest.close()
        with open(path, "rb") as f:
            got = f.read()
    if bad and spec["verify"]:
        check(out.kind != "ok", "the data of range(s) %r do not match their checksums, but the copy succeeded", [ranges[i] for i in bad][:5])
        check(out.kind == "error", "the data of range(s) %r do not match their checksums: %r", [ranges[i] for i in bad][:5], out)
    else:
        check(out.kind == "ok", "no checksum is wrong or is to be verified, but: %r (verify %s)", out, spec["verify"])
        want = bytearray(expected(b"", data, size, bs, ranges))
        if spec["dest"] == "dev":
            want = bytearray(old)
            for a, b in ranges:
                want[a * bs:min((b + 1) * bs, size)] = data[a * bs:min((b + 1) * bs, size)]
        check_same(got, bytes(want), "the destination", bs)
    lab = ["version " + g["version"], "dest " + spec["dest"]]
    if bad:
        lab.append("mismatch, verified" if spec["verify"] else "mismatch, not verified")
    elif data != image:
        lab.append("differs elsewhere only")
    if forged:
        lab.append("checksum altered")
    return Info(bool(bad) or data != image, *lab)


def change_st():
    return st.tuples(
        gen.weighted((3, st.just("in")), (1, st.just("first")), (1, st.just("last")), (2, st.just("batch")), (1, st.just("after")), (1, st.just("before")),
                     (1, st.just("any")), (1, st.sampled_from(["zero", "swap", "shift", "other"]))),
        gen.ints(0, 7), gen.ints(0, 1 << 22), st.sampled_from([1, 2, 128, 255])).map(list)


def strategy():
    return st.fixed_dictionaries({
        "g": gen.geometry(nonempty=True),
        "img": image_content,
        "src": st.sampled_from(["mem", "file", "trans"]),
        "cs": st.sampled_from(["sha256", "sha256", "sha1", "md5", "sha512", "sha3_256", "blake2b"]),
        "changes": gen.weighted((6, st.lists(change_st(), min_size=1, max_size=2)), (1, st.just([]))),
        "skip": gen.weighted((3, st.just(0)), (1, gen.ints(1, 3))),
        "forge": gen.weighted((4, st.just([])), (2, st.lists(st.tuples(gen.ints(0, 7), st.sampled_from(["digit", "digit", "cut", "behead", "longer", "pre", "mirror", "const"]), gen.ints(0, 999)).map(list), min_size=1, max_size=2))),
        "verify": gen.weighted((4, st.just(True)), (1, st.just(False))),
        "sync": st.booleans(),
        "dest": gen.weighted((4, st.just("file")), (1, st.just("dev"))),
    })


def run_cli(spec):
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch("shm")
    image = content(spec["img"], size)
    data = damage(spec, image, g)
    bad = bad_ranges(spec, image, data, g)
    with open(os.path.join(d, "i.img"), "wb") as f:
        f.write(data)
    with open(os.path.join(d, "i.bmap"), "wb") as f:
        f.write(build_bmap(g["version"], size, bs, ranges, image, cs_type=spec["cs"], style=g["style"]))
    args = ["copy"] + (["--bmap", "i.bmap"] if spec["named"] else []) + ([] if spec["verify"] else ["--no-verify"])
    args += ["-", "out"] if spec["stdin"] and spec["named"] else ["i.img", "out"]
    res = util.run_cli(args, d, stdin=data if spec["stdin"] else None)
    if bad and spec["verify"]:
        check(res.code != 0, "the data of range(s) %r do not match their checksums, but: %r", [ranges[i] for i in bad][:5], res)
    else:
        check(res.code == 0, "no checksum is wrong or is to be verified, but: %r", res)
        with open(os.path.join(d, "out"), "rb") as f:
            check_same(f.read(), expected(b"", data, size, bs, ranges), "the destination", bs)
    return Info(data != image, "mismatch" if bad else "no mismatch", "verify %s" % spec["verify"])


def cli_st():
    return st.fixed_dictionaries({
        "g": gen.geometry(max_bytes=1 << 20, nonempty=True), "img": image_content, "cs": st.sampled_from(["sha256", "sha1", "sha512"]),
        "changes": gen.weighted((6, st.lists(change_st(), min_size=1, max_size=2)), (1, st.just([]))), "verify": gen.weighted((3, st.just(True)), (1, st.just(False))),
        "stdin": st.booleans(), "named": st.booleans()})


PROPERTY = Property(
    "K04",
    "Random geometries (see K01) whose bmap is computed from one image while another is copied: byte flips inside, at the edges of and outside of ranges and transfer batches, "
    "lost, swapped, shifted and foreign blocks, checksums with other digits or of another length, ranges without checksum, verification on/off, file and device destinations, and the command line; "
    "the expected verdict comes from comparing the two images range by range; non-trivial: the images differ.",
    [Facet("verdict", strategy, run, quick=4800, thorough=40000, shards=6),
     Facet("cli", cli_st, run_cli, quick=320, thorough=3000, shards=2, noise="vsp")],
    ["different range contents have different digests"],
)
