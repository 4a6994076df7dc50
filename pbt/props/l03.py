"""L03: the command-line tool's exit status tells the truth."""

import os
import resource
import signal
import subprocess
import sys
import time

from hypothesis import strategies as st

from pbt import comp, gen, remote, util
from pbt.core import REPO, Facet, Info, Property
from pbt.copyh import check_same, expected
from pbt.props import k07
from pbt.util import Bmap, build_bmap, check, fast_pattern

BS = 4096
OLD = b"what was there before\n" * 3000


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def kept(d):
    """State of all files except the destination/output."""
    s = util.tree_state(d)
    for name in ("dst", "out"):
        s.pop(name, None)
    return s


def compare(before, after):
    bad = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
    check(not bad, "other files were changed, made or removed: %r", bad)


def flags(verb):
    return {"": [], "q": ["-q"], "d": ["-d"], "quiet": ["--quiet"], "debug": ["--debug"], "qd": ["-q", "-d"]}[verb]


# --------------------------------------------------------------------------
# copy
# --------------------------------------------------------------------------


def run_copy(spec):
    d = util.scratch("ext")
    nblk, tail = spec["nblk"], spec["tail"]
    size = nblk * BS - tail
    data = fast_pattern(spec["seed"], size)
    ranges = [[a, b] for a, b in util.norm_ranges((min(a, nblk - 1), min(a + n, nblk - 1)) for a, n in spec["ranges"])]
    mapped = set(b for a, e in ranges for b in range(a, e + 1))
    why = []  # reasons for which it cannot succeed
    unsure = False
    has_sums = spec["sums"]
    copied = bytearray(data)  # what the image holds
    # The image
    state = spec["image"]
    ext = spec["ext"]
    name = "image.img" + ("." + ext if ext else "")
    ipath = os.path.join(d, name)
    where = spec["at"] % nblk
    if state == "flip":
        off = min(where * BS + spec["at"] % 4000, size - 1)
        copied[off] ^= 0x10
    elif state == "cut":
        copied = copied[:max(0, where * BS + spec["at"] % 3000)]
        if len(copied) >= size:
            copied = bytearray(data)
            state = "good"
    elif state == "longer":
        copied += fast_pattern(5, BS * (1 + spec["at"] % 3))
    stored = comp.pack(ext, bytes(copied), d) if ext else bytes(copied)
    if state == "missing":
        why.append("no image")
    elif state == "dir":
        os.mkdir(ipath)
        why.append("the image is a directory")
    elif state == "noise" and ext:
        put(ipath, fast_pattern(9, 5000))
        why.append("the compressed image is garbage")
    elif state == "cutfile" and ext:
        put(ipath, stored[:len(stored) - 1 - spec["at"] % (len(stored) - 1)])
        unsure = True
    else:
        put(ipath, stored)
    # The bmap
    bstate = spec["bmap"]
    bpath = os.path.join(d, "image.bmap" if spec["find"] else "map")
    opts = []
    use = True
    text = build_bmap(spec["version"], size, BS, ranges, data, checksums=has_sums, style=spec["style"])
    if bstate == "none":
        opts.append("--nobmap")
        use = False
        put(os.path.join(d, "image.bmap"), b"not to be used")
    elif not spec["find"]:
        opts += ["--bmap", "map"]
    if bstate == "missing":
        why.append("no bmap")
    elif bstate == "dir":
        os.mkdir(bpath)
        why.append("the bmap is a directory")
    elif bstate == "garbage":
        put(bpath, [b"", b"<xml/>", b"\0" * 500, b"<bmap version='2.0'>", text[:len(text) // 2], b"\xff\xfe" + text][spec["at"] % 6])
        why.append("the bmap is garbage")
    elif bstate == "edited" and spec["version"] not in ("1.0", "1.1", "1.2"):
        put(bpath, text.replace(b"</bmap>", b" </bmap>"))
        why.append("the bmap was edited")
    elif bstate == "hugeblock":
        # Cannot be held in memory
        put(bpath, build_bmap("1.2", size, 2 ** (40 + spec["at"] % 22), [[0, 0]], checksums=False))
        unsure = True
    elif bstate == "foreign":
        # Of an image of another size (by several blocks)
        put(bpath, build_bmap(spec["version"], size + 3 * BS, BS, [[0, nblk + 2]], data, checksums=False))
        if ext and len(copied) < size + 3 * BS:
            why.append("the image is too short for the bmap")
        elif not ext and len(copied) != size + 3 * BS:
            why.append("the bmap is for an image of another size")
        else:
            # A longer image may happen to have just that size (or more)
            unsure = True
            size, nblk, ranges = size + 3 * BS, nblk + 3, [[0, nblk + 2]]
            mapped = set(range(nblk))
    elif bstate in ("good", "edited"):
        put(bpath, text)
    # The destination
    dest = "dst"
    dstate = spec["dest"]
    dpath = os.path.join(d, "dst")
    old = b""
    if dstate == "old":
        put(dpath, OLD)
    elif dstate == "dir":
        os.mkdir(dpath)
        why.append("the destination is a directory")
    elif dstate == "nodir":
        dest = "no/such/dir"
        why.append("the directory of the destination does not exist")
    elif dstate in ("same", "hardlink", "symlink") and os.path.isfile(ipath):
        if dstate == "same":
            dest = "./" + name
        else:
            dest = "alias"
            (os.link if dstate == "hardlink" else os.symlink)(ipath, os.path.join(d, "alias"))
        why.append("the destination is the image")
    elif dstate in ("bmap", "bmaplink", "bmaphard") and use and os.path.isfile(bpath):
        dest = os.path.basename(bpath)
        if dstate != "bmap":
            dest = "alias"
            (os.symlink if dstate == "bmaplink" else os.link)(bpath, os.path.join(d, "alias"))
        why.append("the destination is the bmap")
    # Options
    verb = flags(spec["verb"])
    if spec["verb"] == "qd":
        why.append("quiet and debug")
    noverify = spec["noverify"]
    if noverify:
        opts.append("--no-verify")
    if spec["nosig"]:
        opts.append("--no-sig-verify")
    opts += spec["junk"]
    if spec["junk"]:
        why.append("unknown option")
    verify = has_sums and not noverify
    if use and bstate in ("good", "edited"):
        if state == "flip" and verify and where in mapped:
            why.append("a listed block is damaged")
        if state == "cut":
            last = max(mapped)
            if len(copied) < min((last + 1) * BS, size):
                why.append("the image is cut short")
            elif not ext:
                unsure = True  # its size is not what the bmap says
        if state == "longer":
            unsure = True
    args = ["copy"] + opts + [name, dest]
    if spec["late"]:
        args = ["copy", name, dest] + opts
    tmp = None
    if spec.get("user") and util.may_change_user():
        tmp = util.for_user(d)
        if os.path.exists(dpath):
            os.chown(dpath, util.USER, util.USER)
            os.chmod(dpath, 0o755)
        deny = {"image": ipath, "bmap": bpath, "dest": dpath}.get(spec["user"])
        if deny and os.path.isfile(deny) and (deny != bpath or use):
            os.chown(deny, 0, 0)
            os.chmod(deny, 0o600 if deny != dpath else 0o444)
            why.append("the %s is not accessible" % spec["user"])
    before = kept(d)
    res = util.run_cli(verb + args, d, child_setup=(lambda: util.become_user(tmp)) if tmp else None)
    check(res.code >= 0, "killed by a signal: %r", res)
    compare(before, kept(d))
    got = None
    if os.path.isfile(dpath):
        with open(dpath, "rb") as f:
            got = f.read()
    labels = ["image " + state, "bmap " + bstate, "destination " + dstate]
    if tmp:
        labels.append("as an ordinary user")
    if why:
        check(res.code > 0, "%s, but: %r", why[0], res)
    elif not unsure:
        check(res.code == 0, "all is well, but: %r", res)
    if res.code > 0:
        check(res.err.strip(), "exit status %d without a message", res.code)
        return Info(True, "refused", *labels)
    if not use:
        if state == "cutfile":
            # Only an uncompressed image without a damage can give anything
            check(got == bytes(copied), "success, but the destination is not the image")
        check_same(got, bytes(copied), "the copy", BS)
    elif bstate == "hugeblock":
        check_same(got, bytes(copied)[:size], "the copy", BS)
    else:
        if state == "longer" and nblk - 1 in mapped:
            # The rest of the last block may come from an image which is longer than it should be
            got = got[:size] if len(got) <= nblk * BS else got
        check_same(got, expected(b"", bytes(copied), size, BS, ranges), "the copy", BS)
    return Info(True, "done", *labels)


def copy_st():
    return st.fixed_dictionaries({
        "nblk": gen.ints(1, 40), "tail": gen.tail_st(), "seed": gen.ints(0, 9), "at": gen.ints(0, 100000),
        "ranges": st.lists(st.tuples(gen.ints(0, 39), gen.ints(0, 5)), min_size=1, max_size=6), "sums": gen.weighted((4, st.just(True)), (1, st.just(False))),
        "image": gen.weighted((6, st.just("good")), (5, st.sampled_from(["flip", "cut", "longer", "flip", "cut"])), (2, st.sampled_from(["missing", "dir", "noise", "cutfile"]))),
        "ext": gen.weighted((5, st.just("")), (3, st.sampled_from(["gz", "xz", "bz2", "zst", "tar.gz", "zip", "lz4"]))),
        "bmap": gen.weighted((8, st.just("good")), (2, st.just("none")), (3, st.sampled_from(["missing", "dir", "garbage", "edited", "foreign", "hugeblock"]))),
        "find": st.booleans(), "version": st.sampled_from(["1.2", "1.3", "1.4", "2.0", "2.0"]), "style": gen.ints(0, 30),
        "dest": gen.weighted((6, st.just("new")), (4, st.just("old")), (3, st.sampled_from(["dir", "nodir", "same", "hardlink", "symlink", "bmap", "bmaplink", "bmaphard"]))),
        "verb": gen.weighted((6, st.just("")), (3, st.sampled_from(["q", "d", "quiet", "debug"])), (1, st.just("qd"))), "noverify": gen.weighted((3, st.just(False)), (1, st.just(True))),
        "nosig": gen.weighted((5, st.just(False)), (1, st.just(True))), "junk": gen.weighted((20, st.just([])), (1, st.sampled_from([["--no-such-option"], ["extra"], ["--bmap"], ["-x"]]))),
        "late": st.booleans(), "user": gen.weighted((3, st.just("")), (2, st.sampled_from(["reads", "reads", "reads", "image", "bmap", "dest"])))})


# --------------------------------------------------------------------------
# create
# --------------------------------------------------------------------------


def run_create(spec):
    d = util.scratch(spec["img"]["fs"])
    why = []
    img = gen.build_image(spec["img"], d, "image")
    ipath = img.path
    fd = os.open(ipath, os.O_RDONLY)
    os.fsync(fd)
    os.close(fd)
    image = "image"
    if spec["image"] == "missing":
        image = "nothing"
        why.append("no image")
    elif spec["image"] == "dir":
        os.mkdir(os.path.join(d, "directory"))
        image = "directory"
        why.append("the image is a directory")
    elif spec["image"] == "link":
        os.symlink("image", os.path.join(d, "link"))
        image = "link"
    out = spec["out"]
    args = []
    opath = os.path.join(d, "out")
    if out in ("new", "old"):
        args = ["-o", "out"]
        if out == "old":
            put(opath, OLD)
    elif out == "dir":
        os.mkdir(opath)
        args = ["-o", "out"]
        why.append("the output is a directory")
    elif out == "nodir":
        args = ["--output", "no/such/file"]
        why.append("the directory of the output does not exist")
    elif out in ("same", "hardlink", "symlink"):
        target = "./image"
        if out != "same":
            target = "alias"
            (os.link if out == "hardlink" else os.symlink)(ipath, os.path.join(d, "alias"))
        args = ["-o", target]
        if image == "image" or image == "link":
            why.append("the output is the image")
        else:
            return Info(False, "not applicable")
    if spec["nosum"]:
        args.append("--no-checksum")
    args += spec["junk"]
    if spec["junk"]:
        why.append("unknown option")
    if spec["verb"] == "qd":
        why.append("quiet and debug")
    args = ["create"] + (args + [image] if spec["late"] else [image] + args)
    tmp = None
    if spec.get("user") and util.may_change_user():
        tmp = util.for_user(d)
        if os.path.exists(opath):
            os.chown(opath, util.USER, util.USER)
            os.chmod(opath, 0o755)
        if spec["user"] == "image":
            os.chmod(ipath, 0o600)
            why.append("the image may not be read")
        elif spec["user"] == "out" and out == "old":
            os.chown(opath, 0, 0)
            os.chmod(opath, 0o444)
            why.append("the output may not be written")
    before = kept(d)
    res = util.run_cli(flags(spec["verb"]) + args, d, child_setup=(lambda: util.become_user(tmp)) if tmp else None)
    check(res.code >= 0, "killed by a signal: %r", res)
    compare(before, kept(d))
    labels = ["image " + spec["image"], "output " + out]
    if tmp:
        labels.append("as an ordinary user")
    if why:
        check(res.code > 0, "%s, but: %r", why[0], res)
        check(res.err.strip(), "exit status %d without a message", res.code)
        check(not res.out, "%s, but a bmap was printed", why[0])
        return Info(True, "refused", *labels)
    check(res.code == 0, "all is well, but: %r", res)
    if out == "stdout":
        text = res.out
    else:
        check(not res.out, "there is output although a file was asked for: %r", res.out[:300])
        with open(opath, "rb") as f:
            text = f.read()
    bmap = Bmap(text)
    check(bmap.image_size == img.size, "the bmap says %d bytes, the image has %d", bmap.image_size, img.size)
    check(bmap.self_checksum() == bmap.file_chksum, "the checksum of the bmap is wrong")
    listed = util.Intervals((a, b + 1) for a, b in bmap.ranges)
    for a, b in img.nonzero_blocks().spans:
        check(listed.covers(a, b), "the blocks %d..%d hold data but are not listed", a, b - 1)
    for (a, b), s in zip(bmap.ranges, bmap.chksums):
        check((s is None) == spec["nosum"], "checksums: %r", bmap.chksums)
    return Info(True, "done", *labels)


def create_st():
    return st.fixed_dictionaries({
        "img": gen.sparse_image(comb=False, max_blocks=40, huge=False), "image": gen.weighted((6, st.just("good")), (3, st.sampled_from(["missing", "dir", "link"]))),
        "out": gen.weighted((4, st.just("new")), (3, st.just("stdout")), (2, st.just("old")), (4, st.sampled_from(["dir", "nodir", "same", "hardlink", "symlink"]))),
        "nosum": st.booleans(), "verb": gen.weighted((6, st.just("")), (3, st.sampled_from(["q", "d", "quiet", "debug"])), (1, st.just("qd"))),
        "junk": gen.weighted((15, st.just([])), (1, st.sampled_from([["--no-such-option"], ["extra"], ["--bmap", "x"], ["-o"]]))), "late": st.booleans(),
        "user": gen.weighted((3, st.just("")), (2, st.sampled_from(["reads", "reads", "image", "out"])))})


# --------------------------------------------------------------------------
# Faults around a real process: full disks, closed outputs, memory, signals
# --------------------------------------------------------------------------

MAIN = ("import sys; sys.dont_write_bytecode=True; sys.path.insert(0, %r); sys.path.append(%r); sys.argv[0]='bmaptool'; "
        "from bmaptools.CLI import main; sys.exit(main())" % (REPO, util.DIST_PACKAGES))


def run_real(spec):
    d = util.scratch("ext")
    what = spec["what"]
    size = spec["nblk"] * BS - spec["tail"]
    data = fast_pattern(spec["seed"], size)
    put(os.path.join(d, "image"), data)
    # every other block
    ranges = [[i, i] for i in range(0, spec["nblk"], 2)]
    text = build_bmap("2.0", size, BS, ranges, data)
    put(os.path.join(d, "map"), text)
    limit = None
    stdout = subprocess.PIPE
    close = []
    env = dict(os.environ, TMPDIR=d)
    env.pop("PYTHONPATH", None)
    fail = True
    sig = asked = None
    stdin = subprocess.DEVNULL
    files = []

    def hole_image():
        # With many extents, so that the bmap is long
        with open(os.path.join(d, "image"), "wb") as f:
            for a, b in ranges:
                f.seek(a * BS)
                f.write(data[a * BS:(b + 1) * BS])
            f.truncate(size)

    if what.startswith("copy"):
        args = ["copy", "--bmap", "map", "image", "dst"]
        if what == "copy nobmap limit":
            args = ["copy", "--nobmap", "image", "dst"]
        if what.endswith("limit"):
            limit = spec["limit"] % size
            last = size if "nobmap" in what else min((ranges[-1][1] + 1) * BS, size)
            fail = limit < last or limit < size
        elif what == "copy devfull":
            os.symlink("/dev/full", os.path.join(d, "dst"))
        elif what == "copy signal url":
            # The server stops in the middle
            name = "image" + (".gz" if spec["seed"] % 2 else "")
            if spec["seed"] % 2:
                put(os.path.join(d, name), comp.pack("gz", data, d))
            srv = remote.http()
            route = {"file": os.path.join(d, name), "cut": os.path.getsize(os.path.join(d, name)) // 2, "stall": True}
            srv.routes({"/" + name: route, "ftp:/" + name: route})
            args = ["copy", "--nobmap" if spec["seed"] % 4 > 1 else "--bmap=map", (srv.ftp_url if spec["seed"] > 4 else srv.url)("/" + name), "dst"]
            sig = (signal.SIGINT, signal.SIGTERM)[spec["limit"] % 2]
        elif what == "copy signal bmap url":
            # While the bmap is being downloaded; the reading of the image has begun
            name = "image" + ["", ".gz", ".bz2", ".zst"][spec["seed"] % 4]
            if spec["seed"] % 4:
                put(os.path.join(d, name), comp.pack(name[6:], data, d))
            srv = remote.http()
            asked = srv.log
            srv.routes({"/" + name: {"file": os.path.join(d, name), "cut": spec["limit"] % os.path.getsize(os.path.join(d, name)), "stall": True},
                        "/map": {"file": os.path.join(d, "map"), "cut": 100, "stall": True}})
            args = ["copy", "--bmap", srv.url("/map"), srv.url("/" + name), "dst"]
            sig = (signal.SIGINT, signal.SIGINT, signal.SIGTERM)[spec["limit"] % 3]
        elif what == "copy signal":
            args = ["copy", "--bmap", "map", "-", "dst"]
            sig = (signal.SIGINT, signal.SIGTERM)[spec["limit"] % 2]
            stdin = subprocess.PIPE
        elif what == "copy nothing":
            fail = False
    else:
        hole_image()
        args = ["create", "image"]
        if what == "create out limit":
            args += ["-o", "out"]
            limit = spec["limit"] % 900
        elif what == "create tmp limit":
            limit = spec["limit"] % 900
        elif what == "create out devfull":
            args += ["-o", "/dev/full"]
        elif what == "create stdout full":
            stdout = open("/dev/full", "wb")
            files.append(stdout)
        elif what == "create stdout closed":
            close = [1]
        elif what == "create stdout pipe":
            r, w = os.pipe()
            os.close(r)
            stdout = os.fdopen(w, "wb")
            files.append(stdout)
        elif what == "create out stderr closed":
            args += ["-o", "out"]
            close = [2]
            fail = False
        elif what == "create no tmp":
            env["TMPDIR"] = os.path.join(d, "nothing")
            fail = False  # another place is found

    def preexec():
        # Started in the background, we may be told to ignore it
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        for fd in close:
            os.close(fd)

    before = kept(d)
    proc = subprocess.Popen([sys.executable, "-B", "-c", MAIN] + args, cwd=d, stdin=stdin, stdout=stdout, stderr=subprocess.PIPE, env=env, preexec_fn=preexec, start_new_session=True)
    util.at_case_end(lambda: os.killpg(proc.pid, signal.SIGKILL))
    for f in files:
        f.close()
    if sig is not None:
        # Give a part of the image, wait until the copy is under way
        part = size // 2
        if proc.stdin:
            proc.stdin.write(data[:part])
            proc.stdin.flush()
        deadline = time.time() + 20
        while time.time() < deadline and not (any(r["target"] == "/map" for r in asked()) if asked else os.path.exists(os.path.join(d, "dst"))):
            time.sleep(0.01)
        time.sleep(spec["limit"] % 100 / 1000.0)
        # A signal which comes right before the main thread blocks is only
        # noticed by Python when the next one comes
        for _ in range(6):
            proc.send_signal(sig)
            try:
                proc.wait(5)
                break
            except subprocess.TimeoutExpired:
                pass
        else:
            check(False, "still running 30 s after the first of 6 signals")
        out, err = b"", proc.stderr.read()
        if proc.stdin:
            proc.stdin.close()
    else:
        try:
            out, err = proc.communicate(timeout=30)
        except subprocess.TimeoutExpired:
            check(False, "the command did not finish")
    after = kept(d)
    code = proc.returncode
    if sig is not None and stdin is not subprocess.PIPE:
        # (the interpreter aborts if a thread waits for standard input)
        check(code > 0 or code == -sig, "signal %d, but the tool died with %d; messages: %s", sig, code, err[-1500:])
    if code == -signal.SIGTERM:
        # It had no chance to remove its temporary file
        after = {k: v for k, v in after.items() if not k.startswith("tmp")}
    compare(before, after)
    if fail:
        check(code != 0, "%s (limit %s), but the exit status is 0; messages: %s", what, limit, err[-1500:])
        if not close:
            check(err.strip() or code < 0, "exit status %d without a message", code)
    elif code == 0:
        if args[0] == "copy":
            with open(os.path.join(d, "dst"), "rb") as f:
                check_same(f.read(), expected(b"", data, size, BS, ranges), "the copy", BS)
        else:
            if "-o" in args:
                with open(os.path.join(d, "out"), "rb") as f:
                    out = f.read()
            bmap = Bmap(out)
            check(bmap.self_checksum() == bmap.file_chksum, "the bmap is wrong")
            check([list(r) for r in bmap.ranges] == ranges, "the bmap is wrong: %r instead of %r", bmap.ranges, ranges)
    elif what != "create out stderr closed":
        check(False, "%s, but the exit status is %d: %s", what, code, err[-1500:])
    return Info(True, what)


WHAT = ["copy limit", "copy nobmap limit", "copy devfull", "copy signal", "copy signal url", "copy signal bmap url", "copy nothing", "create out limit", "create tmp limit", "create out devfull", "create stdout full",
        "create stdout closed", "create stdout pipe", "create no tmp", "create out stderr closed"]


def real_st():
    return st.fixed_dictionaries({"what": st.sampled_from(WHAT), "nblk": gen.ints(3, 60), "tail": gen.tail_st(), "seed": gen.ints(0, 9), "limit": gen.ints(0, 10 ** 6)})


CORNER = [{"what": w, "nblk": n, "tail": 5, "seed": 1, "limit": lim} for w in WHAT for n, lim in ((3, 700), (40, 5001))]
CORNER += [{"what": "copy signal url", "nblk": 40, "tail": 5, "seed": s, "limit": lim} for s in range(8) for lim in (700, 5001)]
CORNER += [{"what": "copy signal bmap url", "nblk": 40, "tail": 5, "seed": s, "limit": lim} for s in range(4) for lim in (700, 5002)]


# --------------------------------------------------------------------------
# usage
# --------------------------------------------------------------------------


def run_usage(spec):
    d = util.scratch("ext")
    put(os.path.join(d, "image"), b"x" * 5000)
    before = util.tree_state(d)
    args = spec["args"]
    res = util.run_cli(args, d)
    compare(before, util.tree_state(d))
    if any(a in ("--help", "-h", "--version") for a in args):
        # Which comes first, the request or the mistake?
        check(res.code in (0, 2), "%r", res)
        check(res.code != 0 or res.out.strip(), "nothing was printed")
        return Info(False, "help")
    check(res.code > 0, "%r is no proper command, but: %r", args, res)
    check(res.err.strip(), "exit status %d without a message", res.code)
    return Info(True, "usage")


def usage_st():
    word = st.sampled_from(["image", "", "frob", "--bmap", "--nobmap", "-q", "-d", "--no-verify", "-o", "Copy", "CREATE", "--help", "--version", "--output=x"])
    # At most one operand after "copy": never a proper command
    bad = st.one_of(
        st.lists(word, max_size=3),
        st.lists(st.sampled_from(["--nobmap", "--no-verify", "--no-sig-verify"]), max_size=3).map(lambda o: ["copy"] + o + ["image"]),
        st.lists(st.sampled_from(["--no-checksum"]), max_size=2).map(lambda o: ["create"] + o),
        st.lists(st.sampled_from(["--nobmap", "--no-verify"]), max_size=2).map(lambda o: ["copy"] + o + ["image", "a", "b"]),
    )
    return st.fixed_dictionaries({"args": bad})


PROPERTY = Property(
    "L03",
    "copy: states of image (good, damaged in or outside listed blocks, cut, longer, missing, directory, broken compression) x bmap (good, none, missing, garbage, edited, foreign, "
    "blocks larger than memory) x destination (new, existing, directory, unreachable, the image or the bmap itself or through links) x options; create: likewise; real: an own process "
    "with a full disk, a full/closed/broken output or a signal in the middle; fault: errors of writing, truncating or synchronizing (see K07); usage: improper command lines. Non-trivial: every case but requests for help.",
    [Facet("copy", copy_st, run_copy, quick=900, thorough=15000, shards=3),
     Facet("create", create_st, run_create, quick=450, thorough=6000, shards=2),
     Facet("real", real_st, run_real, quick=150, thorough=2500, shards=2, corner=CORNER),
     # (a full, failing or slow device, an error of the final synchronization, ...)
     Facet("fault", k07.cli_st, k07.run_cli, quick=160, thorough=3000, shards=2, noise="vspn"),
     Facet("usage", usage_st, run_usage, quick=200, thorough=2000, shards=1)],
)
