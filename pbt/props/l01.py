"""L01: the bmap used is the one asked for, or the right one next to the image."""

import os

from hypothesis import strategies as st

from pbt import comp, gen, remote, util
from pbt.copyh import check_same
from pbt.core import Facet, Info, Property
from pbt.util import build_bmap, check, fast_pattern

BS = 4096
BLOCKS = 24
OLD = b"old contents " * 1000


def strip(path):
    """The path without its last extension, None if there is none."""
    head, slash, base = path.rpartition("/")
    lead = len(base) - len(base.lstrip("."))
    dot = base.rfind(".")
    if dot < lead or dot <= 0:
        return None
    return head + slash + base[:dot]


def candidates(image):
    result = []
    while image is not None:
        result.append(image + ".bmap")
        image = strip(image)
    return result


def bmap_for(i, data, pad=0):
    """The i-th bmap: it lists some blocks which the others do not list."""
    return build_bmap("2.0", len(data), BS, [[0, 0], [2 + i, 2 + i]], data, style=1, pad=pad)


def result_of(i, data):
    want = bytearray(len(data))
    for b in (0, 2 + i):
        want[b * BS:(b + 1) * BS] = data[b * BS:(b + 1) * BS]
    return bytes(want)


def run(spec):
    d = util.scratch("ext")
    data = fast_pattern(spec["seed"], BLOCKS * BS - 5)
    work = d
    for n in spec["dirs"]:
        work = os.path.join(work, n)
        os.makedirs(work, exist_ok=True)
    name = ".".join([spec["stem"]] + spec["exts"])
    kind = next((e for e in sorted(comp.EXTS, key=lambda e: -len(e)) if name.endswith("." + e)), "")
    if spec["stdin"]:
        kind = ""  # nothing is decompressed there
    stored = comp.pack(kind, data, d) if kind else data
    rel = {"bare": "", "dot": "./", "dirs": "/".join(spec["dirs"]) + "/" if spec["dirs"] else "./", "abs": work + "/", "up": "../%s/" % os.path.basename(work) if spec["dirs"] else "./"}[spec["ref"]]
    cwd = d if spec["ref"] == "dirs" else work
    image = rel + name
    if spec["stdin"]:
        image = "-"
    else:
        with open(os.path.join(cwd, image), "wb") as f:
            f.write(stored)
    # The files which could be the bmap, most specific first
    cands = candidates(image)
    present = {}
    for i, c in enumerate(cands):
        state = spec["state"][i % len(spec["state"])]
        path = os.path.join(cwd, c)
        if c == image:
            present[i] = "image"
        if os.path.exists(path) or state == "absent":
            continue
        if state == "dangling":
            os.symlink("nothing-here", path)
            continue
        with open(path, "wb") as f:
            f.write(bmap_for(i, data) if state == "good" else b"<bmap>this is none</bmap>\n")
        present[i] = state
    # Distractors; also named like the directories without their extensions
    above = work
    while above != d:
        head, _, base = above.rpartition("/")
        while "." in base:
            base = base.rpartition(".")[0]
            p = head + "/" + base + ".bmap"
            if not os.path.lexists(p):
                with open(p, "wb") as f:
                    f.write(bmap_for(20, data))
        above = head
    for extra in (name + "x.bmap", "bmap", name + ".BMAP", name + "..bmap", spec["stem"] + "2.bmap", name + ".bmap.bmap", "other.bmap"):
        p = os.path.join(work, extra)
        if not os.path.lexists(p) and extra not in [os.path.basename(c) for c in cands]:
            with open(p, "wb") as f:
                f.write(bmap_for(20, data))
    opts = []
    use = None  # number of the bmap; None: no bmap
    why = ""
    untouched = False
    if spec["bmap"] == "explicit":
        given = ["my map", "maps/" + os.path.basename(image), "maps/" + name + ".bmap", os.path.join(d, "maps", "x")][spec.get("place", 0)]
        os.makedirs(os.path.dirname(os.path.join(cwd, given)), exist_ok=True)
        if any(given.endswith("." + e) for e in comp.EXTS):
            given = "maps/x"  # (it would have to be compressed)
        with open(os.path.join(cwd, given), "wb") as f:
            f.write(bmap_for(15, data))
        opts += ["--bmap", given]
        use = 15
    elif spec["bmap"] == "missing":
        opts += ["--bmap", "no such map"]
        why = "the bmap does not exist"
    elif spec["bmap"] == "image":
        opts += ["--bmap", image]
        why = "the bmap is the image"
    elif present:
        use = min(present)
        if present[use] == "bad":
            why = "the bmap is bad"
        elif present[use] == "image":
            why = "the bmap is the image"
            untouched = True
    else:
        why = "there is no bmap"
    if spec["nobmap"]:
        opts.append("--nobmap")
        if spec["bmap"] != "none":
            why = "contradictory options"
            untouched = True
        else:
            use, why, untouched = None, "", False
    if spec["bmap"] in ("image", "missing"):
        untouched = True
    if spec["sigopts"] == "both":
        opts += ["--bmap-sig", "nothing", "--no-sig-verify"]
        why = "contradictory options"
        untouched = True
    elif spec["sigopts"] == "sig" and use is None:
        opts += ["--bmap-sig", "nothing"]
        why = why or "a signature of no bmap"
    elif spec["sigopts"] == "nover":
        opts.append("--no-sig-verify")
    dst = os.path.join(d, "dst")
    if spec["exists"]:
        with open(dst, "wb") as f:
            f.write(OLD)
    args = ["copy"] + (opts + [image, dst] if spec["first"] else [image, dst] + opts)
    before = util.tree_state(d)
    res = util.run_cli(args, cwd, stdin=stored if spec["stdin"] else None)
    after = util.tree_state(d)
    got = None
    if os.path.exists(dst):
        with open(dst, "rb") as f:
            got = f.read()
    before.pop("dst", None)
    after.pop("dst", None)
    check(before == after, "other files changed: %r", sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)))
    if why:
        check(res.code > 0, "%s, but: %r", why, res)
        check(got in (None, b"", OLD), "%s, but %d bytes were written", why, len(got or b""))
        if untouched:
            check(got == (OLD if spec["exists"] else None), "%s, but the destination was touched", why)
        return Info(True, "refused: " + why)
    check(res.code == 0, "%r failed: %r", args, res)
    want = data if use is None else result_of(use, data)
    if kind == "" and spec["stdin"] and use is None:
        want = stored
    if got != want:
        which = [i for i in range(21) if got == result_of(i, data)]
        check(False, "%r with the files %r: the bmap used was %s, should be %s", args, [c for i, c in enumerate(cands) if i in present], which if which else "no bmap" if got == data else "something else",
              use)
    return Info(True, "no bmap" if use is None else "explicit" if use == 15 else "candidate %d of %d" % (use + 1, len(cands)), "compressed" if kind else "plain")


def strategy():
    ext = st.sampled_from(["img", "raw", "gz", "xz", "bz2", "tgz", "1", "2-rc1", "x y", "bmap", "tar", "zst", "a" * 30])
    return st.fixed_dictionaries({
        "seed": gen.ints(0, 9), "dirs": st.lists(st.sampled_from(["d", "v1.2", "a.bmap", ".hidden", "with space", "x.img"]), max_size=2),
        "stem": st.sampled_from(["i", "image", ".hidden", "..odd", "my image", "http:", "-x", "ü", "a-b_c"]), "exts": gen.weighted((1, st.just([])), (4, st.lists(ext, max_size=4))),
        "ref": st.sampled_from(["abs", "dot", "up", "dirs", "abs", "dot", "up"]), "stdin": gen.weighted((9, st.just(False)), (1, st.just(True))),
        "state": st.lists(gen.weighted((3, st.just("absent")), (4, st.just("good")), (1, st.sampled_from(["bad", "dangling"]))), min_size=1, max_size=5),
        "bmap": gen.weighted((7, st.just("none")), (2, st.just("explicit")), (1, st.sampled_from(["missing", "image"]))), "nobmap": gen.weighted((5, st.just(False)), (1, st.just(True))),
        "place": st.sampled_from([0, 1, 1, 2, 3]), "sigopts": gen.weighted((8, st.just("")), (1, st.sampled_from(["both", "sig", "nover"]))), "exists": st.booleans(), "first": st.booleans()})


def run_url(spec):
    """The bmap next to an image on a server."""
    d = util.scratch("ext")
    data = fast_pattern(spec["seed"], BLOCKS * BS - 5)
    name = ".".join(["i"] + spec["exts"])
    kind = next((e for e in sorted(comp.EXTS, key=lambda e: -len(e)) if name.endswith("." + e)), "")
    srv = remote.http()
    target = "/v1.2/" + name
    with open(os.path.join(d, "image"), "wb") as f:
        f.write(comp.pack(kind, data, d) if kind else data)
    with open(os.path.join(d, "distractor"), "wb") as f:
        f.write(bmap_for(20, data))
    routes = {target: {"file": os.path.join(d, "image")}, "/v1.bmap": {"file": os.path.join(d, "distractor")}, "/v1.2.bmap": {"file": os.path.join(d, "distractor")}}
    cands = candidates(target)
    present = []
    for i, c in enumerate(cands):
        if spec["state"][i % len(spec["state"])]:
            with open(os.path.join(d, "bmap%d" % i), "wb") as f:
                f.write(bmap_for(i, data, spec["pad"]))
            routes[c] = {"file": os.path.join(d, "bmap%d" % i), "mode": spec["mode"]}
            present.append(i)
    if spec["mode"] == "ftp":
        # All of them on an FTP server
        routes = {"ftp:" + k: {"file": v["file"]} for k, v in routes.items()}
    there = {"ftp": srv.ftp_url, "https": srv.tls_url}.get(spec["mode"], srv.url)
    srv.routes(routes)
    opts = []
    use = present[0] if present else None
    if spec["explicit"]:
        # A local image with a remote bmap or the other way around
        with open(os.path.join(d, "there"), "wb") as f:
            f.write(bmap_for(15, data, spec["pad"]))
        if spec["explicit"] == "local":
            opts = ["--bmap", "there"]
        else:
            routes["ftp:/maps/there" if spec["mode"] == "ftp" else "/maps/there"] = {"file": os.path.join(d, "there"), "mode": spec["mode"]}
            srv.routes(routes)
            opts = ["--bmap", there("/maps/there")]
        use = 15
    if spec["cut"] and use is not None and spec["explicit"] != "local":
        # Not all of the bmap arrives
        route = routes[("ftp:" if spec["mode"] == "ftp" else "") + ("/maps/there" if spec["explicit"] else cands[use])]
        size = os.path.getsize(route["file"])
        if spec["mode"] != "close":
            route["cut"] = max(size - spec["cut"], 0) if spec["cut"] < size else spec["cut"] % size
            srv.routes(routes)
            with open(os.path.join(d, "dst"), "wb") as f:
                f.write(OLD)
            res = util.run_cli(["copy"] + opts + [there(target), "dst"], d, env=remote.TRUST)
            check(res.code > 0, "only %d of %d bytes of the bmap arrived, but: %r", route["cut"], size, res)
            with open(os.path.join(d, "dst"), "rb") as f:
                check(f.read() in (b"", OLD), "only %d of %d bytes of the bmap arrived, but data were written", route["cut"], size)
            return Info(True, "bmap cut")
    res = util.run_cli(["copy"] + opts + [there(target), "dst"], d, env=remote.TRUST)
    if use is None:
        check(res.code > 0, "there is no bmap, but: %r", res)
        check(os.path.getsize(os.path.join(d, "dst")) == 0 if os.path.exists(os.path.join(d, "dst")) else True, "there is no bmap, but data were written")
        return Info(True, "no bmap on the server")
    check(res.code == 0, "failed: %r", res)
    with open(os.path.join(d, "dst"), "rb") as f:
        check_same(f.read(), result_of(use, data), "the copy (bmap %d)" % use, BS)
    return Info(True, "explicit %s bmap" % spec["explicit"] if spec["explicit"] else "candidate %d of %d" % (use + 1, len(cands)), "image on an %s server" % (spec["mode"] if spec["mode"] in ("ftp", "https") else "http"))


def url_st():
    return st.fixed_dictionaries({
        "seed": gen.ints(0, 9), "exts": st.lists(st.sampled_from(["img", "raw", "gz", "xz", "tgz", "1"]), max_size=3), "state": st.lists(st.booleans(), min_size=1, max_size=4),
        "pad": gen.weighted((3, st.just(0)), (2, gen.ints(1, 3000000))), "cut": gen.weighted((5, st.just(0)), (1, st.one_of(gen.ints(1, 12), gen.ints(1, 3000)))),
        "mode": st.sampled_from(["length", "chunked", "close", "https", "ftp"]), "explicit": gen.weighted((4, st.just("")), (1, st.sampled_from(["local", "remote"])))})


PROPERTY = Property(
    "L01",
    "Images with up to four extensions (compressed or not, hidden, in directories with dots) named in several ways or given on standard input or by URL, any set of good, bad and dangling "
    "candidates plus distractors next to them, and option combinations, through the command line; every bmap lists different blocks, so that the copy shows which one was used. Every case is "
    "non-trivial.",
    [Facet("local", strategy, run, quick=900, thorough=12000, shards=6, noise="vpn"),
     Facet("url", url_st, run_url, quick=150, thorough=1500, shards=2, noise="vspn")],
)
