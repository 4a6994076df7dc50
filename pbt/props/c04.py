"""C04: mapped and unmapped queries partition any window and agree."""

import contextlib

from hypothesis import strategies as st

from pbt import fiemap, fsblock, gen, util
from pbt.core import Facet, Info, Property, Skip
from pbt.props import c01
from pbt.util import check


def window_ranges(ranges, start, count, what):
    """Validate order and bounds, return the list."""
    out = []
    prev = start - 1
    for item in ranges:
        first, last = item
        check(first <= last, "%s: reversed range %r", what, item)
        check(first > prev, "%s: range %r is out of order or overlaps (previous end %d)", what, item, prev)
        check(first >= start and last <= start + count - 1, "%s: range %r is outside of the window %d..%d", what, item, start, start + count - 1)
        prev = last
        out.append((first, last))
    return out


def covered(ranges):
    s = set()
    for a, b in ranges:
        s.update(range(a, b + 1))
    return s


def run(spec):
    with fsblock.fs_block(spec.get("bs"), spec.get("bs_how", "ioctl")):
        if spec["cls"] == "scripted":
            with fiemap.scripted(spec["fm"], spec.get("bs") or gen.BS):
                return run_windows(spec)
        return run_windows(spec)


def run_windows(spec):
    from bmaptools import Filemap

    bs = spec.get("bs") or gen.BS
    d, img = c01.setup_image(spec)
    cls = Filemap.FilemapFiemap if spec["cls"] != "seek" else Filemap.FilemapSeek
    if spec["cls"] == "fiemap" and not util.fiemap_supported(img.path):
        # Must be refused rather than guessed
        try:
            cls(img.path)
        except Filemap.ErrorNotSupp:
            return Info(False, "extent map not supported: refused")
        check(False, "the extent map is not supported here but was used")
    f = None
    if spec["obj"]:
        f = open(img.path, "rb")
        util.at_case_end(f.close)
    who = contextlib.nullcontext()
    if spec.get("user") and util.may_change_user():
        # The image may only be read
        who = util.as_user(util.for_user(d))
    with who:
        fm = cls(f if f else img.path)
    n = (img.size + bs - 1) // bs
    check(fm.blocks_cnt == n and fm.block_size == bs and fm.image_size == img.size, "geometry %r", (fm.blocks_cnt, fm.block_size, fm.image_size))
    nonzero, never = c01.truth(img, bs)
    lab = [spec["cls"], "fs:" + spec["img"]["fs"]]
    small = n <= 400
    answers = {}

    def mapped(b):
        if b not in answers:
            m = fm.block_is_mapped(b)
            u = fm.block_is_unmapped(b)
            check(bool(m) != bool(u), "block %d: mapped %r, unmapped %r", b, m, u)
            answers[b] = bool(m)
        return answers[b]

    edges = set()
    for a, b in nonzero[:50] + never[:50]:
        edges.update((a, b))
    edges = sorted(edges) or [0]
    inside = 0
    windows = [[0, 0, 0, 0]] + spec["windows"]
    for i, (mode, x, y, z) in enumerate(windows):
        if i == 0:
            start, count = 0, n
        else:
            start = x % n
            if mode == 1:
                start = max(0, min(edges[x % len(edges)] + (z % 3) - 1, n - 1))
            count = 1 + y % (n - start)
            if mode == 1:
                end = edges[y % len(edges)] + (z // 3 % 3) - 1
                if end > start:
                    count = min(end - start, n - start)
            elif mode == 2:
                count = n - start
            elif mode == 3:
                count = 1
        what = "window %d+%d of %d" % (start, count, n)
        m = window_ranges(fm.get_mapped_ranges(start, count), start, count, what + " mapped")
        u = window_ranges(fm.get_unmapped_ranges(start, count), start, count, what + " unmapped")
        both = sorted([(a, b, 1) for a, b in m] + [(a, b, 0) for a, b in u])
        pos = start
        for a, b, _ in both:
            check(a == pos, "%s: mapped %r and unmapped %r do not partition it (at block %d)", what, m[:9], u[:9], pos)
            pos = b + 1
        check(pos == start + count, "%s: mapped %r and unmapped %r do not cover it (end at %d)", what, m[-9:], u[-9:], pos)
        # Against the truth
        bad = c01._intersect([(a, b + 1) for a, b in u], nonzero)
        check(not bad, "%s: blocks with data reported unmapped: %r", what, bad[:5])
        bad = c01._intersect([(a, b + 1) for a, b in m], never)
        check(not bad, "%s: holes reported mapped: %r", what, bad[:5])
        # Against per-block answers
        if count <= 60 and small:
            probe = range(start, start + count)
        else:
            probe = sorted(set(b for a, c, _ in both[:12] + both[-4:] for b in (a, c)))[:40]
        mset = m
        for b in probe:
            inm = any(p <= b <= q for p, q in mset)
            check(mapped(b) == inm, "%s: block %d is mapped: %r, but ranges say %r", what, b, mapped(b), inm)
        if len(both) > 1 and (start > 0 or count < n):
            inside += 1
    if len(nonzero) > 4681:
        lab.append("more extents than one call returns")
    if img.size % gen.BS:
        lab.append("unaligned size")
    if spec.get("bs"):
        lab.append("block size " + ("smaller" if bs < gen.BS else "larger") + " than that of holes")
    if spec.get("mixed"):
        lab.append("mixed queries")
        run_mixed(spec, img, fm, cls, n, windows)
    return Info(inside > 0, *lab)


def run_mixed(spec, img, fm, cls, n, windows):
    """Several queries of the same object at the same time give what they give alone."""
    todo = []
    for i, (_, x, y, z) in enumerate(windows[:4]):
        start = x % n if i else 0
        count = 1 + y % (n - start) if i else n
        name = "get_unmapped_ranges" if (x + z) % 3 == 0 else "get_mapped_ranges"
        alone = getattr(cls(img.path), name)(start, count)
        todo.append((name, start, count, getattr(fm, name)(start, count), alone))
    order = spec["mixed"]
    turn = 0
    while todo and turn < 3000:
        step = order[turn % len(order)] + turn // len(order)
        turn += 1
        if step % 5 == 4:
            fm.block_is_mapped((step * 7919) % n)
            continue
        name, start, count, it, alone = todo[step % len(todo)]
        got, want = next(it, None), next(alone, None)
        check(got == want, "%s(%d, %d), asked together with other things, gives %r instead of %r", name, start, count, got, want)
        if want is None:
            todo = [t for t in todo if t[3] is not it]


def strategy():
    return st.fixed_dictionaries({
        "img": gen.sparse_image(max_blocks=60),
        "cls": st.sampled_from(["fiemap", "seek", "scripted"]),
        "fm": c01.fm_st(),
        "obj": st.booleans(),
        "windows": st.lists(st.tuples(gen.ints(0, 3), gen.ints(0, 5000), gen.ints(0, 5000), gen.ints(0, 8)).map(list), min_size=1, max_size=20),
        "block": c01.bs_st(), "user": gen.weighted((4, st.just(False)), (1, st.just(True))),
        "mixed": gen.weighted((2, st.just([])), (2, st.lists(gen.ints(0, 99), min_size=1, max_size=12))),
    }).map(c01.set_block).map(fix)


def fix(spec):
    if spec["cls"] == "fiemap" and spec["img"]["fs"] == "shm" and spec["img"]["nblk"] % 8:
        spec = dict(spec, img=dict(spec["img"], fs="ext"))
    if spec["cls"] == "scripted" and spec["img"]["nblk"] > 1 << 20 and spec["fm"]["piece"]:
        spec = dict(spec, fm=dict(spec["fm"], piece=300))
    if spec["cls"] == "fiemap" and (spec["bs"] or 0) > gen.BS:
        # (extents are made of whole blocks)
        spec = dict(spec, cls="seek")
    return spec


def run_bounds(spec):
    """Blocks outside of the file are refused by the extent-map method."""
    from bmaptools import Filemap

    d, img = c01.setup_image(spec)
    if not util.fiemap_supported(img.path):
        raise Skip("no extent map here")
    fm = Filemap.FilemapFiemap(img.path)
    for b in (img.nblk, img.nblk + spec["x"], -1 - spec["x"]):
        try:
            r = fm.block_is_mapped(b)
        except Filemap.Error:
            continue
        check(False, "block %d of a %d-block file is reported as %r", b, img.nblk, r)
    return Info(True, "refused")


PROPERTY = Property(
    "C04",
    "Random sparse images (see C01); up to 20 random windows plus the whole file, biased to extent/hole edges +-1, one-block windows and windows to the end, one after the other and several at the same time, "
    "with both methods, and with scripted extents which are split anywhere and not made of whole blocks; checked for order, bounds, exact partition, per-block agreement and the harness's record of data and holes; "
    "non-trivial: at least one partial window contains both mapped and unmapped blocks.",
    [Facet("windows", strategy, run, quick=1200, thorough=15000, shards=7),
     Facet("bounds", lambda: st.fixed_dictionaries({"img": gen.sparse_image(comb=False, huge=False, fs=("ext",)), "x": gen.ints(0, 1000)}), run_bounds, quick=60, shards=1)],
    ["other block sizes than 4096 are simulated at the system-call level", "windows lie inside the file"],
)
