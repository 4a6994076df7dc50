"""L04: what the tool prints is true, complete and in the right place."""

import os
import re
import subprocess
import time

from hypothesis import strategies as st

from pbt import comp, gen, gpgkeys, remote, util
from pbt.copyh import expected
from pbt.core import Facet, Info, Property
from pbt.props.l02 import DATA, DOCS, put, result_of
from pbt.util import Bmap, build_bmap, check, content

COLOUR = re.compile("\033\\[[0-9;]*m")
LEVELS = {"": [], "q": ["--quiet"], "d": ["--debug"], "short-q": ["-q"], "short-d": ["-d"]}


def lines_of(text):
    return [COLOUR.sub("", l) for l in text.splitlines()]


def is_warning(line):
    return "WARNING" in line


def is_debug(line):
    # (the time and place may come first)
    return bool(re.search(r"\bdebug: ", line))


def quiet_check(level, res, what, warned):
    """Nothing but warnings with --quiet, no debugging output unless asked for."""
    lines = lines_of(res.err)
    if "q" in level:
        check(all(is_warning(l) for l in lines), "%s with %s printed %r", what, LEVELS[level], res.err)
    check(any(is_warning(l) for l in lines) == bool(warned), "%s: %s, but the messages are %r", what, "there is reason to warn" if warned else "nothing to warn about", res.err)
    if "d" not in level:
        check(not any(is_debug(l) for l in lines), "%s printed debugging information unasked: %r", what, res.err)
    return lines


# --- create ------------------------------------------------------------------


def run_create(spec):
    d = util.scratch(spec["img"]["fs"])
    name = spec["name"]
    img = gen.build_image(spec["img"], d, name)
    opts = ["--no-checksum"] if not spec["chk"] else []
    ref = util.run_cli(["create", "./" + name, "-o", "ref.bmap"] + opts, d)
    check(ref.code == 0 and not ref.out, "create -o: %r", ref)
    with open(os.path.join(d, "ref.bmap"), "rb") as f:
        want = f.read()
    res = util.run_cli(LEVELS[spec["level"]] + ["create"] + opts + ["./" + name] + (["-o", "b.bmap"] if spec["file"] else []), d)
    check(res.code == 0, "create: %r", res)
    if spec["file"]:
        check(not res.out, "there is an output file, but standard output got %r", res.out[:300])
        with open(os.path.join(d, "b.bmap"), "rb") as f:
            got = f.read()
        check(got == want, "with %s the bmap differs", LEVELS[spec["level"]])
    else:
        check(res.out == want, "standard output is not just the bmap which goes to an output file: %r...", res.out[:300])
    bmap = Bmap(want)
    full = bmap.mapped_cnt == bmap.blocks_cnt
    lines = quiet_check(spec["level"], res, "create", full)
    if full:
        check(any("no holes" in l and name in l for l in lines), "the image %s has no holes, but: %r", name, res.err)
    return Info(True, "level " + spec["level"].replace("short-", ""), "no holes" if full else "holes", "file" if spec["file"] else "standard output")


def create_st():
    plain = st.tuples(st.sampled_from(["ext", "shm"]), gen.ints(1, 20), gen.ints(0, 4095)).map(lambda t: {"fs": t[0], "nblk": t[1], "tail": t[2], "ops": [["w", 0, t[1], 1]]})
    return st.fixed_dictionaries({
        "img": gen.weighted((3, gen.sparse_image(max_blocks=30, huge=False)), (1, plain)), "chk": st.booleans(), "file": st.booleans(), "level": st.sampled_from(sorted(LEVELS)),
        "name": st.sampled_from(["disk.img", "my image", "a%sb", "100%.img", "-x", "ü{}.raw"])})


# --- copy --------------------------------------------------------------------


def seconds(text):
    """The duration in a text like '1h 2m 3.4s'."""
    total = 0.0
    for num, unit in re.findall(r"([0-9.]+)\s*([hms])", text):
        total += float(num) * {"h": 3600, "m": 60, "s": 1}[unit]
    return total


def amount(text):
    m = re.match(r"^([0-9.]+) (bytes?|[KMGTPE]iB)$", text)
    check(m, "odd amount %r", text)
    unit = 1 if m.group(2).startswith("byte") else 1 << (10 * ("KMGTPE".index(m.group(2)[0]) + 1))
    return float(m.group(1)) * unit, unit


def slow_sync():
    """A medium which takes its time."""
    real = os.fsync

    def fsync(fd):
        time.sleep(0.2)
        return real(fd)

    os.fsync = fsync


def run_copy(spec):
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch(spec["fs"])
    image = content({"seed": spec["seed"]}, size)
    name = spec["name"] + (".gz" if spec["gz"] else "")
    put(os.path.join(d, name), comp.pack("gz", image, d) if spec["gz"] else image)
    bmap = {"none": None, "found": name + ".bmap", "given": spec["bmapname"]}[spec["bmap"]]
    opts = []
    if bmap:
        put(os.path.join(d, bmap), build_bmap(g["version"], size, bs, ranges, image, style=g["style"]))
        if spec["bmap"] == "given":
            opts = ["--bmap", os.path.join(d, bmap) if spec["abs"] else "./" + bmap]
    else:
        opts = ["--nobmap"]
        bs, ranges = 4096, [[0, (size - 1) // 4096]]
    mapped = sum(min((b + 1) * bs, size) - a * bs for a, b in ranges)
    whole = sum((b - a + 1) * bs for a, b in ranges)  # (the last block may be counted as a full one)
    # The destination
    path = os.path.join(d, "the copy")
    if spec["exists"]:
        put(path, b"old" * 1000)
    dest = {"abs": path, "rel": "the copy", "dots": os.path.join(d, "..", os.path.basename(d), ".", "the copy"), "double": "/" + path, "around": "/dev/.." + path}[spec["dest"]]
    warned = os.path.normpath(dest).startswith("/dev/")
    before = util.tree_state(d)
    level = spec["level"]
    args = LEVELS[level] + ["copy"] + opts + ["./" + name, dest]
    start = time.monotonic()
    if spec.get("clock"):
        plan = ",".join("%d:%s:%d" % tuple(c) for c in spec["clock"])
        res = util.run_cli_real(args, d, env={"LD_PRELOAD": CLOCK["lib"], "CLOCK_PLAN": plan})
        if "ld.so" in res.err:
            raise RuntimeError(res.err)
    else:
        res = util.run_cli(args, d, child_setup=slow_sync if spec.get("slow") else None)
    took = time.monotonic() - start
    check(res.code == 0, "copy: %r", res)
    check(not res.out, "copying printed %r to standard output", res.out[:300])
    with open(path, "rb") as f:
        check(f.read() == expected(b"", image, size, bs, ranges), "the copy is wrong")
    after = util.tree_state(d)
    before.pop("the copy", None)
    after.pop("the copy", None)
    check(before == after, "other files changed")
    lines = quiet_check(level, res, "copy to %s" % dest, warned)
    if warned:
        check(any(is_warning(l) and dest in l for l in lines), "the warning does not name %s: %r", dest, res.err)
        word = "regular file"
        check(any(is_warning(l) and word in l for l in lines), "the warning does not say that it is a %s: %r", word, res.err)
        check(any(is_warning(l) and "does not exist" in l for l in lines) == (not spec["exists"]), "the destination %s, but: %r", "exists" if spec["exists"] else "does not exist", res.err)
    if "q" in level:
        return Info(True, "quiet", "warned" if warned else "not warned")
    info = "\n".join(l for l in lines if not is_debug(l))
    # Who reads the messages knows what was copied where
    check("the copy" in info, "the destination is not named: %r", res.err)
    if bmap:
        check(os.path.basename(bmap) in info, "the bmap %r is not named: %r", bmap, res.err)
        check(name in info, "the image %r is not named: %r", name, res.err)
        check(("discovered" in info) == (spec["bmap"] == "found"), "the bmap was %s, but: %r", spec["bmap"], res.err)
        check(re.search(r"\bno bmap\b", info) is None, "there is a bmap, but: %r", res.err)
    else:
        check(re.search(r"\bno bmap\b", info), "there is no bmap, but: %r", res.err)
    m = re.search(r"copying time: (.*), copying speed (.*)/sec", info)
    check(m, "time and speed are not reported: %r", res.err)
    # (times have one decimal, speeds are rounded down)
    check(seconds(m.group(1)) <= took + 0.06, "%.2f seconds passed, but %r", took, m.group(0))
    speed, unit = amount(m.group(2))
    check(speed + unit * 0.06 + 1 >= mapped / took, "at least %d bytes per second were copied, but %r", mapped / took, m.group(0))
    check(seconds(m.group(1)) < 0.1 or speed <= whole / (seconds(m.group(1)) - 0.06) + unit * 0.06 + 1, "%d bytes, but %r", mapped, m.group(0))
    check(not spec.get("slow") or seconds(m.group(1)) >= 0.14, "synchronizing took at least 0.2 seconds, but %r", m.group(0))
    if "d" in level:
        check(any(is_debug(l) for l in lines), "there is no debugging information: %r", res.err)
    return Info(True, "debugging" if "d" in level else "normal", "bmap " + spec["bmap"], "warned" if warned else "not warned")


def copy_st():
    names = st.sampled_from(["disk.img", "my image.raw", "a%sb", "100%.img", "ü{}.raw", "%d", "-x.img"])
    return st.fixed_dictionaries({
        "g": gen.geometry(max_bytes=1 << 20, nonempty=True), "seed": gen.ints(0, 9), "fs": st.sampled_from(["ext", "shm"]), "name": names, "gz": gen.weighted((2, st.just(False)), (1, st.just(True))),
        "bmap": st.sampled_from(["none", "found", "found", "given"]), "bmapname": st.sampled_from(["the.map", "x%s.bmap", "-b", "my map"]), "abs": st.booleans(), "exists": st.booleans(), "slow": gen.weighted((7, st.just(False)), (1, st.just(True))),
        "dest": gen.weighted((3, st.just("abs")), (1, st.sampled_from(["rel", "dots", "double", "around"]))), "level": st.sampled_from(sorted(LEVELS) + [""])})


# --- the wall clock --------------------------------------------------------------

CLOCK = {}


def clock_setup():
    CLOCK["lib"] = os.path.join(util._W["ext"], "clock.so")  # pylint: disable=protected-access
    source = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "clock.c")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", CLOCK["lib"], source, "-ldl", "-lpthread"], check=True)


def clock_st():
    """Copies while the wall clock is set or stands still."""
    second = 10**9
    step = st.tuples(gen.ints(1, 40), st.just("step"), st.sampled_from([-7200, -3600, -2, -1, 1, 3600, 7200, 10**8]).map(lambda n: n * second))
    stop = st.tuples(gen.ints(1, 40), st.just("stop"), gen.ints(1, 60))
    plan = st.lists(st.one_of(step, stop).map(list), min_size=1, max_size=3)
    return st.tuples(copy_st(), plan).map(lambda t: dict(t[0], clock=t[1], slow=False, level=t[0]["level"] if "q" not in t[0]["level"] else ""))


# --- both --quiet and --debug; errors ------------------------------------------


def run_both(spec):
    """Contradictory options are refused, and errors are told, quiet or not."""
    d = util.scratch("ext")
    image = content({"seed": 4}, 50000)
    put(os.path.join(d, "i.img"), image)
    if spec["exists"]:
        put(os.path.join(d, "out"), b"old contents")
    copy = ["copy", "--nobmap", "i.img", "out"]
    create = ["create", "i.img", "-o", "out"]
    what = spec["what"]
    if what == "both":
        args = [["-q", "-d"], ["-d", "-q"], ["--quiet", "--debug"], ["--debug", "-q"]][spec["n"] % 4] + (create if spec["create"] else copy)
    elif what == "missing":
        args = LEVELS[spec["level"]] + [a.replace("i.img", "none.img") for a in (create if spec["create"] else copy)]
    elif what == "dest":
        args = LEVELS[spec["level"]] + [a.replace("out", "no/such/dir") if a == "out" else a for a in (create if spec["create"] else copy)]
    elif what == "nobmap":
        args = LEVELS[spec["level"]] + ["copy", "i.img", "out"]
    elif what == "cut":
        put(os.path.join(d, "i.img.bmap"), build_bmap("2.0", 60000, 4096, [[0, 14]], None))
        args = LEVELS[spec["level"]] + ["copy", "i.img", "out"]
    else:
        put(os.path.join(d, "i.img.bmap"), build_bmap("2.0", 50000, 4096, [[1, 3]], bytes(50000)))
        args = LEVELS[spec["level"]] + ["copy", "i.img", "out"]
    before = util.tree_state(d)
    res = util.run_cli(args, d)
    check(res.code > 0, "%r: %r", args, res)
    lines = lines_of(res.err)
    check(any("ERROR" in l for l in lines), "%r failed, but the messages are %r", args, res.err)
    check(not res.out, "%r failed and printed %r to standard output", args, res.out[:300])
    if what == "both":
        check(util.tree_state(d) == before, "%r was refused, but changed something", args)
    elif "q" in spec["level"]:
        check(not any(re.match(r"bmaptool: info", l) or is_debug(l) for l in lines), "%r printed %r", args, res.err)
    return Info(True, what)


def both_st():
    return st.fixed_dictionaries({"what": st.sampled_from(["both", "missing", "dest", "nobmap", "cut", "sum"]), "n": gen.ints(0, 3), "create": st.booleans(), "exists": st.booleans(),
                                  "level": st.sampled_from(sorted(LEVELS))})


# --- signatures ----------------------------------------------------------------

FPR = {}


def setup():
    gpgkeys.setup(DOCS)
    for key in gpgkeys.KEYS:
        if key == "unknown":
            continue
        out = subprocess.run(["gpg", "--homedir", gpgkeys.STATE["home"], "--batch", "--with-colons", "--fingerprint", key + "@example.com"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             check=True).stdout.decode()
        FPR[key] = [l.split(":")[9] for l in out.splitlines() if l.startswith("fpr")][0]


def run_sig(spec):
    d = util.scratch("ext")
    put(os.path.join(d, "img"), DATA)
    doc = "2.0-%d" % spec["doc"]
    signers = list(dict.fromkeys(spec["signers"]))
    where = spec["where"]
    bmap = os.path.join(d, "img.bmap")
    opts = []
    if where == "clear":
        put(bmap, gpgkeys.clear(doc, signers))
    elif where != "none":
        put(bmap, DOCS[doc])
        put({"asc": bmap + ".asc", "sig": bmap + ".sig", "named": os.path.join(d, "the signature")}[where], gpgkeys.detached(doc, signers, spec["armor"]))
    else:
        put(bmap, DOCS[doc])
    if where == "named" and not spec["nover"]:
        opts = ["--bmap-sig", "the signature"]
    if spec["nover"]:
        opts = ["--no-sig-verify"]
    res = util.run_cli(LEVELS[spec["level"]] + ["copy"] + opts + ["img", "dst"], d, env={"GNUPGHOME": gpgkeys.STATE["home"]})
    text = "\n".join(lines_of(res.err))
    check(not res.out, "%r was printed to standard output", res.out[:300])
    good = all(s in gpgkeys.TRUSTED for s in signers)
    verified = [l for l in text.splitlines() if re.search(r"success|verified", l)]
    if spec["nover"] or where == "none":
        check(res.code == 0, "%r", res)
        check(not verified, "no signature was verified, but: %r", res.err)
    elif good:
        check(res.code == 0, "all signatures are good: %r", res)
        if "q" in spec["level"]:
            check(not text.strip(), "with --quiet: %r", res.err)
        else:
            for key in gpgkeys.KEYS:
                who = "The %s key" % key
                if key in signers:
                    check(who in text and key + "@example.com" in text and FPR[key].lower() in text.lower(), "the signature of %s (%s) is not reported: %r", who, FPR[key], res.err)
                else:
                    check(who not in text and FPR.get(key, "\0").lower() not in text.lower(), "%s did not sign: %r", who, res.err)
            if where in ("asc", "sig"):
                check("img.bmap." + where in text, "the discovered signature file is not named: %r", res.err)
        with open(os.path.join(d, "dst"), "rb") as f:
            check(f.read() == result_of(doc), "the copy is wrong")
    else:
        check(res.code > 0, "not all signatures are good: %r", res)
        check("ERROR" in text, "no error is reported: %r", res.err)
        bad = [s for s in signers if s not in gpgkeys.TRUSTED]
        # Nobody is credited who is not trusted
        for s in bad:
            check(not any("The %s key" % s in l for l in verified), "the key of %s is %s, but: %r", s, s, res.err)
    return Info(where != "none", where, "checking off" if spec["nover"] else "good" if good else "bad", "%d signers" % len(signers))


def sig_st():
    trusted = st.sampled_from(gpgkeys.TRUSTED)
    return st.fixed_dictionaries({
        "where": st.sampled_from(["clear", "named", "asc", "sig", "clear", "named", "none"]), "doc": gen.ints(0, 2), "armor": st.booleans(),
        "signers": gen.weighted((3, st.lists(trusted, min_size=1, max_size=2)), (1, st.lists(st.sampled_from(gpgkeys.KEYS), min_size=1, max_size=2))),
        "nover": gen.weighted((5, st.just(False)), (1, st.just(True))), "level": gen.weighted((3, st.just("")), (2, st.sampled_from(sorted(LEVELS))))})


PROPERTY = Property(
    "L04",
    "create on images with and without holes, to a file or standard output; copies of plain and compressed images, with found, given and no bmaps, to new and existing files inside and outside /dev by names of all "
    "kinds; failing commands; signatures by different keys; each with no option, --quiet or --debug; copies while the wall clock is set or stands still. Every case is non-trivial but those without a signature in the signature facet.",
    [Facet("create", create_st, run_create, quick=300, thorough=5000, shards=2),
     Facet("copy", copy_st, run_copy, quick=700, thorough=12000, shards=4),
     Facet("clock", clock_st, run_copy, quick=90, thorough=1500, shards=2, setup=clock_setup),
     Facet("errors", both_st, run_both, quick=150, thorough=1500, shards=1),
     Facet("signer", sig_st, run_sig, quick=240, thorough=4000, shards=2, setup=setup)],
    ["messages are told apart by the words the tool uses for their levels; their exact wording is not part of the property"],
)
