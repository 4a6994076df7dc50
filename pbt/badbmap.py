"""Mutations of bmap files, and a reader which says whether one makes sense."""

import hashlib
import re
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from pbt import gen

WORDS = ["", " ", "0", "1", "-1", "+5", "1_0", "\uff11", "1.0", "0x10", "10 000", "1e3", "None", "NaN", "inf", "true", "99999999999999999999", "4611686018427387904", "9223372036854775807", "9223372036854775808",
         "0" * 30 + "1", "9" * 400, "9" * 5000, "\n 4 \n", "\u00a04", "\u0664", "\u00b2", "5-3", "0-0", "0 - 3", "3-", "-3", "a-b", "1-2-3", "0-99999999999", "0-9223372036854775807", "--", "1--2", "0:3", "0,3",
         "sha256", "sha1", "md5", "SHA256", "shake_128", "blake2b", "sha3_256", "1.2", "1.3", "1.4", "2.0", "2", "2.", ".0", "3.0", "2.9", "0.9", "1.10", "1.2.3", " 2.0 ", "v2.0", "1.-3", "da39a3ee5e6b4b0d3255bfef95601890afd80709"]
TAGS = ["ImageSize", "BlockSize", "BlocksCount", "MappedBlocksCount", "ChecksumType", "BmapFileChecksum", "BmapFileSHA1", "BlockMap", "Range", "bmap", "blockmap", "x", "{http://x}Range"]
ATTRS = ["version", "chksum", "sha1", "x"]
HEADS = ['encoding="utf-8"', 'encoding="latin-1"', 'encoding="utf-16"', 'encoding="utf-32"', 'encoding="gbk"', 'encoding="bogus"', 'encoding="ascii" standalone="yes"', 'standalone="no"', 'encoding=""']


def op_st():
    return st.one_of(
        st.tuples(st.just("text"), gen.ints(0, 40), st.sampled_from(WORDS)),
        st.tuples(st.just("add"), gen.ints(0, 40), st.sampled_from([1, -1, 2, -2, 10, 4096, -4096, 1 << 32, 1 << 40])),
        st.tuples(st.sampled_from(["drop", "dup", "last", "nest", "empty", "comment", "cdata"]), gen.ints(0, 40), gen.ints(0, 40)),
        st.tuples(st.just("tag"), gen.ints(0, 40), st.sampled_from(TAGS)),
        st.tuples(st.just("attr"), gen.ints(0, 40), st.tuples(st.sampled_from(ATTRS), st.one_of(st.none(), st.sampled_from(WORDS))).map(list)),
        st.tuples(st.just("head"), gen.ints(0, 40), st.sampled_from(HEADS)),
        st.tuples(st.sampled_from(["flip", "cut", "del", "ins", "twice"]), gen.ints(0, 5000), gen.ints(0, 255)),
    ).map(list)


def sign(data):
    """Make the checksum in the file right, if it is clear where and what it is."""
    try:
        root = ET.fromstring(data)
        major, minor = [int(x) for x in root.attrib["version"].split(".")]
        new = major > 1 or minor > 3
        kind = root.find("ChecksumType").text.strip() if new else "sha1"
        text = root.find("BmapFileChecksum" if new else "BmapFileSHA1").text.strip().encode()
        try:
            n = len(hashlib.new(kind).hexdigest())
        except ValueError:
            kind, n = "sha256" if len(text) != 40 else "sha1", len(text)
    except Exception:  # pylint: disable=broad-except
        return data
    if not text or data.count(text) != 1:
        return data
    zero = data.replace(text, b"0" * n)
    return data.replace(text, hashlib.new(kind, zero).hexdigest().encode())


def mutate(data, ops):
    """Apply operations, first those on the tree, then those on the bytes."""
    root = ET.fromstring(data)
    later = []
    for kind, num, arg in ops:
        elems = list(root.iter())
        e = elems[num % len(elems)]
        parent = next((p for p in elems if e in list(p)), None)
        if kind == "text":
            e.text = arg if e is not root else e.text
        elif kind == "add":
            nums = re.findall(r"\d+", e.text or "")
            if nums:
                e.text = (e.text or "").replace(nums[-1], str(int(nums[-1][:30]) + arg))
        elif kind == "drop" and parent is not None:
            parent.remove(e)
        elif kind == "dup" and parent is not None:
            parent.insert(arg % (len(parent) + 1), e)
        elif kind == "last" and parent is not None:
            parent.remove(e)
            parent.append(e)
        elif kind == "nest" and parent is not None:
            to = elems[arg % len(elems)]
            if to not in list(e.iter()):
                parent.remove(e)
                to.append(e)
        elif kind == "empty":
            for child in list(e):
                e.remove(child)
            if e is not root:
                e.text = None
        elif kind == "comment" and e.text and not list(e):
            at = arg % (len(e.text) + 1)
            text, e.text = e.text, e.text[:at]
            c = ET.Comment("5-6")
            c.tail = text[at:]
            e.append(c)
        elif kind == "tag":
            e.tag = arg
        elif kind == "attr":
            name, value = arg
            e.attrib.pop(name, None)
            if value is not None:
                e.set(name, value)
        else:
            later.append((kind, num, arg))
    out = b'<?xml version="1.0" ?>\n' + ET.tostring(root, "utf-8").split(b"?>\n", 1)[-1]
    for kind, num, arg in later:
        pos = num % (len(out) + 1)
        if kind == "head":
            out = out.replace(b'<?xml version="1.0" ?>', b'<?xml version="1.0" ' + arg.encode() + b"?>", 1)
            if "utf-16" in arg and num % 2:
                out = out.decode("utf-8", "replace").encode("utf-16")
            elif "gbk" in arg or "latin" in arg:
                out = out.replace(b"<BlockMap>", b"<!-- \xc4\xe3 --><BlockMap>", 1)
        elif kind == "flip" and pos < len(out):
            out = out[:pos] + bytes([out[pos] ^ (arg or 1)]) + out[pos + 1:]
        elif kind == "cut":
            out = out[:pos]
        elif kind == "del":
            out = out[:pos] + out[pos + 1 + arg % 40:]
        elif kind == "ins":
            out = out[:pos] + [b"<", b">", b"&", b'"', b"\0", b"\xff", b" ", b"-", b"9", b"&#49;", b"]]>", b"\r\n", b"<!--", b"</BlockMap>", b"<Range> 0 </Range>"][arg % 15] + out[pos:]
        elif kind == "twice":
            out = out + out if arg % 2 else out[:pos] + out[pos:pos + 80] + out[pos:]
        elif kind == "cdata":
            out = re.sub(rb"<(BlockSize|ImageSize|Range)>([^<]*)<", rb"<\1><![CDATA[\2]]><", out, count=1 + arg % 3)
    return out


class No(Exception):
    """The file makes no sense."""


class Unclear(Exception):
    """Nothing is claimed about the file."""


def loose(text):
    try:
        int(text)
        return True
    except ValueError:
        return False


def number(text):
    text = text.strip()
    if not re.match(r"^[0-9]{1,18}$", text):
        raise Unclear("the number %r" % text[:50]) if loose(text) else No("%r is not a number" % text[:50])
    return int(text)


def required(root, tag):
    e = root.find(tag)
    if e is None or e.text is None or (not e.text.strip() and tag != "ChecksumType"):
        raise No("there is no %s" % tag)
    return e.text


def read(data, image):
    """-> (block size, ranges); raises No or Unclear"""
    try:
        root = ET.fromstring(data)
    except Exception:  # pylint: disable=broad-except
        raise No("it is not XML")
    version = root.attrib.get("version")
    if version is None:
        raise No("there is no version")
    if not re.match(r"^[0-9]{1,3}\.[0-9]{1,3}$", version):
        parts = version.split(".", 1)
        raise Unclear("the version %r" % version[:50]) if len(parts) == 2 and all(loose(x) for x in parts) else No("the version %r" % version[:50])
    major, minor = [int(x) for x in version.split(".")]
    if major > 2:
        raise No("the version %s is not supported" % version)
    if (major, minor) not in ((1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (2, 0)):
        raise Unclear("version %s never existed" % version)
    unclear = None

    def num(tag):
        nonlocal unclear
        text = required(root, tag)
        try:
            return number(text)
        except Unclear as exc:
            unclear = exc
            return 1

    bs, blocks, mapped, size = num("BlockSize"), num("BlocksCount"), num("MappedBlocksCount"), num("ImageSize")
    if unclear:
        raise unclear
    if bs == 0:
        raise No("the block size is 0")
    if bs > 1 << 30:
        unclear = Unclear("a block size of %d" % bs)
    if blocks != (size + bs - 1) // bs:
        raise No("the number of blocks does not fit the sizes")
    if blocks == 0:
        raise Unclear("the image is empty")
    new = (major, minor) >= (1, 4)
    kind, attr, tag = "sha1", "sha1", "BmapFileSHA1" if minor == 3 else None
    if new:
        kind, attr, tag = required(root, "ChecksumType").strip(), "chksum", "BmapFileChecksum"
    try:
        n = len(hashlib.new(kind).hexdigest())
    except (TypeError, ValueError):
        raise No("the checksum type %r" % kind[:50])
    if tag:
        given = required(root, tag).strip()
        if data.count(given.encode()) != 1:
            raise Unclear("where is the checksum?")
        right = hashlib.new(kind, data.replace(given.encode(), b"0" * n)).hexdigest()
        if len(given) != n:
            # (what has to be zero is not clear)
            raise Unclear("the length of the checksum")
        if given != right:
            raise Unclear("upper case") if given.lower() == right else No("the checksum is wrong")
    ranges = []
    body = root.find("BlockMap")
    if body is None:
        raise No("there is no block map")
    for e in body.findall("Range"):
        parts = [x.strip() for x in (e.text or "").split("-")]
        if len(parts) > 2:
            raise No("the range %r" % e.text[:50])
        try:
            a, b = number(parts[0]), number(parts[-1])
        except Unclear as exc:
            unclear = exc
            continue
        if a > b or b >= blocks:
            raise No("the range %r" % e.text[:50])
        digest = e.attrib.get(attr)
        ranges.append((a, b, digest))
    if unclear:
        raise unclear
    if sum(b - a + 1 for a, b, _ in ranges) != mapped:
        raise No("the number of mapped blocks is wrong")
    if size != len(image):
        if any(min((b + 1) * bs, size) > len(image) for a, b, _ in ranges):
            raise No("the image is too short for it")
        raise Unclear("the size of the image is another one")
    for a, b, digest in ranges:
        if digest is not None and digest != hashlib.new(kind, image[a * bs:(b + 1) * bs]).hexdigest():
            raise Unclear("an odd checksum") if not digest.strip() else No("the checksum of a range is wrong")
    if any(y[0] <= x[1] for x, y in zip(ranges, ranges[1:])):
        raise Unclear("ranges which overlap or are not in order")
    return bs, [(a, b) for a, b, _ in ranges]
