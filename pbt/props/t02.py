"""T02: the transparent reader behaves like a forward-only file."""

import io
import os

from hypothesis import strategies as st

from pbt import comp, gen, remote, util
from pbt.copyh import image_content
from pbt.core import Facet, Info, Property, Violation
from pbt.util import check, content


def describe(op):
    return "%s(%s)" % (op[0], ", ".join(str(x) for x in op[1:]))


class Model(object):
    """A file with the given contents; 'stream': it cannot go back nor beyond its end."""

    def __init__(self, data, stream):
        self.data = data
        self.pos = 0
        self.stream = stream

    def read(self, n=-1):
        if n < 0:
            n = max(len(self.data) - self.pos, 0)
        buf = self.data[self.pos:self.pos + n]
        self.pos += len(buf)
        return buf

    def seek(self, off, whence):
        """-> False if it has to be refused"""
        if whence == 0:
            new = off
        elif whence == 1:
            new = self.pos + off
        elif whence == 2 and not self.stream:
            new = len(self.data) + off
        else:
            return False
        if new < 0:
            return False
        if self.stream:
            if new < self.pos:
                return False
            new = min(new, len(self.data))
        self.pos = new
        return True


def resolve(op, model, n):
    """Offsets in operations are relative to interesting places."""
    kind = op[0]
    if kind == "read":
        return ["read", op[1]]
    if kind == "seek":
        _, base, off, whence = op
        start = {"pos": model.pos, "end": n, "zero": 0, "half": n // 2}[base] + off
        if whence == 0:
            return ["seek", start, 0]
        if whence == 1:
            return ["seek", start - model.pos, 1]
        return ["seek", start - n, 2] if whence == 2 else ["seek", start, whence]
    return list(op)


def run(spec):
    d = util.scratch("ext")
    data = content(spec["img"], spec["n"])
    ext = spec["ext"]
    kind = spec["source"]
    stored = comp.pack(ext, data, d) if ext else data
    if kind == "pipe" and ext:
        data = stored
    src = remote.Source(kind, d, "i." + (ext or "img"), stored)
    obj = src.open()
    # A plain local file can be positioned freely
    free = kind == "path" and not ext or kind == "fileurl" and not ext
    model = Model(data, not free)
    done = []
    labels = set()
    try:
        for raw in spec["ops"]:
            op = resolve(raw, model, len(data))
            if free and op[0] == "seek" and op[2] in (3, 4):
                op[2] = 7  # (holes can be looked for in a plain file)
            done.append(describe(op))
            if op[0] == "read":
                want = model.read(op[1]) if op[1] is not None else model.read()
                got = obj.read() if op[1] is None else obj.read(op[1])
                if got != want:
                    raise Violation("%s: %d bytes, should be %d%s" % ("; ".join(done), len(got), len(want), " with other contents" if len(got) == len(want) else ""))
            elif op[0] == "tell":
                pos = obj.tell()
                check(pos == model.pos, "%s: %r, should be %d", "; ".join(done), pos, model.pos)
                labels.add("position")
            else:
                old = model.pos
                if op[2] == 0 and len(op) == 3 and spec["short"]:
                    call = lambda: obj.seek(op[1])
                else:
                    call = lambda: obj.seek(op[1], op[2])
                if model.seek(op[1], op[2]):
                    call()
                    labels.add("seek beyond the end" if model.pos >= len(data) else "seek")
                else:
                    labels.add("refused seek")
                    try:
                        call()
                    except Violation:
                        raise
                    except Exception:  # pylint: disable=broad-except
                        pass
                    else:
                        raise Violation("%s: accepted at position %d of %d" % ("; ".join(done), old, len(data)))
    finally:
        with remote.path_env(**src.env):
            obj.close()
    return Info(len(spec["ops"]) > 2, kind, "compressed" if ext and kind != "pipe" else "plain", *sorted(labels))


def strategy():
    read = st.tuples(st.just("read"), gen.weighted((3, gen.ints(0, 3000)), (3, st.sampled_from([1, 4096, 65536, 1 << 20, (1 << 20) + 1, 3 << 20])), (1, st.sampled_from([None, -1, -5])))).map(list)
    seek = st.tuples(st.just("seek"), st.sampled_from(["zero", "half", "end", "pos", "pos", "pos"]),
                     gen.weighted((4, gen.ints(0, 3000)), (2, gen.ints(-20, 20)), (2, st.sampled_from([1 << 20, (1 << 20) + 1, (2 << 20) - 1, 2 << 20, 0]))),
                     gen.weighted((5, st.just(0)), (5, st.just(1)), (1, st.sampled_from([2, 2, 3, 4, 7])))).map(list)
    tell = st.just(["tell"])
    ops = st.lists(gen.weighted((3, read), (3, seek), (2, tell)), min_size=3, max_size=14)
    return st.fixed_dictionaries({
        "ext": gen.weighted((2, st.just("")), (2, st.sampled_from(["gz", "bz2", "xz", "lzo", "lz4", "zst", "zip", "tgz", "tar.xz"]))), "img": image_content, "short": st.booleans(),
        "n": st.one_of(gen.ints(0, 9000), st.sampled_from([1 << 20, (1 << 20) + 1]), gen.ints(1, 4 << 20)), "ops": ops, "source": st.sampled_from(remote.SOURCES)})


CORNER = [{"ext": e, "img": {"kind": "rand", "seed": 1}, "short": True, "n": 2500000, "source": s,
           "ops": [["tell"], ["read", 10], ["tell"], ["seek", "zero", 1500000, 0], ["tell"], ["read", 5], ["seek", "pos", 5000, 1], ["read", 7], ["tell"], ["seek", "end", 10, 0], ["tell"],
                   ["read", 5], ["seek", "zero", 5, 0], ["tell"]]} for e in ("", "gz", "tgz") for s in remote.SOURCES]

PROPERTY = Property(
    "T02",
    "Sequences of up to 14 operations (reads of 0 bytes to everything, seeks from the start, the current position, the end or elsewhere, to places before, at and beyond the position and the "
    "end, position queries) on plain and compressed images from every kind of source, against a model; non-trivial: more than two operations.",
    [Facet("ops", strategy, run, quick=3200, thorough=20000, shards=8, corner=CORNER)],
    ["a path and a file URL of an uncompressed image can be positioned freely, everything else is a stream"],
)
