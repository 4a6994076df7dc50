"""Shared Hypothesis strategies and builders for sparse images and range lists."""

import os

from hypothesis import strategies as st

from pbt.util import FALLOC_KEEP, FALLOC_PUNCH, Intervals, fallocate, pattern

BS = 4096  # block size of the file systems used here


def ints(a, b):
    return st.integers(a, b)


def weighted(*pairs):
    """One of the strategies, with integer weights; earlier ones are simpler."""
    # (st.one_of() drops repeated strategies)
    pool = []
    for w, s in pairs:
        pool.extend([s] * w)
    return st.sampled_from(range(len(pool))).flatmap(lambda i: pool[i])


# --------------------------------------------------------------------------
# Sparse images on a file system
# --------------------------------------------------------------------------


def tail_st():
    """Bytes missing from the last block."""
    return weighted((3, st.just(0)), (2, st.sampled_from([1, 511, 512, 2048, 4095])), (1, ints(0, 4095)))


@st.composite
def sparse_image(draw, max_blocks=80, huge=True, comb=True, fs=("ext", "shm")):
    kind = draw(weighted((8, st.just("small")), (2, st.just("medium")), *([(1, st.just("huge"))] if huge else []),
                         *([(1, st.just("comb"))] if comb else [])))
    if kind == "small":
        nblk = draw(ints(1, max_blocks))
    elif kind == "medium":
        nblk = draw(ints(200, 3000))
    elif kind == "huge":
        nblk = draw(st.sampled_from([2 ** 18, 2 ** 20 + 3, 2 ** 21, 2 ** 24 + 1, 2 ** 28]))
    else:
        nblk = 0
    where = st.one_of(ints(0, max(nblk - 1, 0)), ints(0, 3), ints(max(nblk - 4, 0), max(nblk - 1, 0)))
    cnt = st.one_of(ints(1, 3), ints(1, 40))
    if kind == "comb":
        n = draw(st.sampled_from([30, 300, 1500, 4680, 4681, 4682, 4700, 6000, 9400]))
        step = draw(ints(2, 3))
        start = draw(ints(0, 5))
        nblk = start + n * step + draw(ints(0, 5))
        ops = [["comb", start, n, step]]
        extra = draw(st.lists(st.tuples(st.sampled_from(["w", "p"]), ints(0, nblk - 1), ints(1, 20)).map(list), max_size=2))
        ops += extra
    else:
        op = st.one_of(
            st.tuples(st.just("w"), where, cnt, ints(0, 9)),
            st.tuples(st.just("w"), where, cnt, ints(0, 9)),
            st.tuples(st.just("b"), where, ints(0, BS - 1), ints(1, 5000)),
            st.tuples(st.just("z"), where, cnt),
            st.tuples(st.just("f"), where, cnt),
            st.tuples(st.just("k"), where, cnt),
            st.tuples(st.just("p"), where, cnt),
            st.tuples(st.just("s")),
        ).map(list)
        ops = draw(st.lists(op, min_size=0, max_size=10))
    return {"fs": draw(st.sampled_from(list(fs))), "nblk": nblk, "tail": draw(tail_st()), "ops": ops}


class BuiltImage(object):
    def __init__(self, path, size, touched):
        self.path = path
        self.size = size
        self.touched = touched  # Intervals in blocks: everything ever written/allocated/punched
        self.nblk = (size + BS - 1) // BS

    def nonzero_blocks(self):
        """Intervals of blocks which hold a non-zero byte."""
        spans = []
        with open(self.path, "rb") as f:
            fd = f.fileno()
            for a, b in self.touched.spans:
                pos = a
                while pos < b:
                    n = min(256, b - pos)
                    buf = os.pread(fd, n * BS, pos * BS)
                    run = None
                    for i in range(n):
                        chunk = buf[i * BS:(i + 1) * BS]
                        if chunk.count(0) != len(chunk):
                            if run is None:
                                run = pos + i
                        elif run is not None:
                            spans.append((run, pos + i))
                            run = None
                    if run is not None:
                        spans.append((run, pos + n))
                    pos += n
        result = Intervals()
        for a, b in spans:
            if result.spans and a <= result.spans[-1][1]:
                result.spans[-1] = (result.spans[-1][0], b)
            else:
                result.spans.append((a, b))
        return result


def build_image(spec, directory, name="image.img"):
    """Create the image; nothing is synchronized unless the spec says so."""
    path = os.path.join(directory, name)
    nblk = spec["nblk"]
    size = max(nblk * BS - spec["tail"], 1)
    touched = Intervals()
    fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        os.ftruncate(fd, size)
        for op in spec["ops"]:
            k = op[0]
            if k == "s":
                os.fsync(fd)
                continue
            if k == "comb":
                _, start, n, step = op
                spans = []
                for i in range(n):
                    blk = start + i * step
                    off = blk * BS + (i * 7) % 100
                    if off < size:
                        os.pwrite(fd, b"\x01", off)
                        spans.append((blk, blk + 1))
                merged = touched.spans + spans
                merged.sort()
                out = []
                for a, b in merged:
                    if out and a <= out[-1][1]:
                        out[-1] = (out[-1][0], max(out[-1][1], b))
                    else:
                        out.append((a, b))
                touched.spans = out
                continue
            blk = op[1]
            start = blk * BS
            if k == "b":
                start += op[2]
                end = min(start + op[3], size)
                if end > start:
                    os.pwrite(fd, pattern("b%d" % op[3], end - start), start)
                    touched.add(start // BS, (end - 1) // BS + 1)
                continue
            end = start + op[2] * BS
            if k != "k":
                end = min(end, size)
            if end <= start:
                continue
            if k == "w":
                os.pwrite(fd, pattern(op[3] if len(op) > 3 else 0, end - start), start)
            elif k == "z":
                os.pwrite(fd, bytes(end - start), start)
            elif k == "f":
                fallocate(fd, 0, start, end - start)
            elif k == "k":
                fallocate(fd, FALLOC_KEEP, start, end - start)
            elif k == "p":
                fallocate(fd, FALLOC_PUNCH | FALLOC_KEEP, start, end - start)
            touched.add(start // BS, (end - 1) // BS + 1)
    finally:
        os.close(fd)
    img = BuiltImage(path, size, touched)
    img.beyond = touched.spans  # including storage beyond the end
    img.touched = touched.clip(0, img.nblk)
    return img


# --------------------------------------------------------------------------
# Range lists for hand-made bmaps
# --------------------------------------------------------------------------


@st.composite
def geometry(draw, max_bytes=3 << 20, sizes=None, versions=("1.0", "1.1", "1.2", "1.3", "1.4", "2.0"), nonempty=False):
    """
    {"bs", "size", "ranges", "version", "style"}: a bmap geometry.  Block sizes
    are small or large enough to meet transfer-batch boundaries (1 MiB) with
    little data.
    """
    bs = draw(sizes if sizes is not None else weighted(
        (4, st.just(4096)), (3, st.sampled_from([512, 1024, 8192, 65536, 262144])),
        (2, st.sampled_from([1 << 19, 1 << 20])), (1, st.sampled_from([1, 7, 1000, 3000, 100000])),
        (1, st.sampled_from([(1 << 20) + 4096, 3 << 19, (1 << 20) - 1]))))
    limit = max(max_bytes // bs, 3)
    batch = max((1 << 20) // bs, 1)
    near = [b for b in (batch - 1, batch, batch + 1, 2 * batch - 1, 2 * batch, 2 * batch + 1) if 1 <= b <= limit] or [1]
    # Ranges: alternating gap and run lengths
    shape = draw(weighted((4, st.just("small")), (2, st.just("mixed")), (2, st.just("batch")), (1, st.just("many")), (1, st.just("whole"))))
    few = ints(0, 3)
    any_len = st.integers(0, max(limit.bit_length() - 1, 0)).flatmap(lambda e: ints(1, 1 << e))
    runs, gaps, most = {
        "small": (ints(1, 3), few, 14), "mixed": (any_len, st.one_of(few, any_len), 8), "batch": (st.sampled_from(near), few, 3),
        "many": (st.just(1), ints(0, 2), 200), "whole": (st.sampled_from(near) | any_len, st.just(0), 1)}[shape]
    equal = shape != "many" and draw(st.booleans())
    count = draw(ints(1 if nonempty else draw(weighted((6, st.just(1)), (1, st.just(0)))), most))
    if shape == "many":
        count = min(count + 20, limit // 3 + 1)
        gap = draw(ints(0, 2))
        steps = [[gap + (1 if i % 7 == 3 else 0), 1] for i in range(count)]
    elif equal and count:
        run = draw(runs)
        steps = [[draw(gaps), run] for _ in range(count)]
    else:
        steps = [[draw(gaps), draw(runs)] for _ in range(count)]
    if shape == "whole" and steps:
        steps[0][0] = 0
    ranges = []
    pos = 0
    for gap, run in steps:
        first = pos + gap
        if first >= limit:
            break
        last = min(first + run - 1, limit - 1)
        ranges.append([first, last])
        pos = last + 1
    if nonempty and not ranges:
        ranges = [[0, 0]]
        pos = 1
    after = 0 if shape == "whole" else draw(weighted((3, st.just(0)), (3, ints(1, 4)), (1, any_len)))
    nblk = max(min(pos + after, limit), pos, 1)
    size = nblk * bs - draw(weighted((3, st.just(0)), (2, ints(0, bs - 1)), (1, st.just(bs - 1)), (1, st.just(min(1, bs - 1)))))
    return {"bs": bs, "size": size, "ranges": ranges, "version": draw(st.sampled_from(list(versions))), "style": draw(ints(0, 59))}
