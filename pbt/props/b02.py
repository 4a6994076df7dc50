"""B02: device tuning is always undone and never gets in the way."""

import errno
import logging
import os
import re

from hypothesis import strategies as st

from pbt import bdev, comp, gen, util
from pbt.copyh import bmap_file, do_copy, run_recorded_cli
from pbt.core import Facet, Info, Property
from pbt.util import MemImage, build_bmap, check, fast_pattern

TUNED = {"scheduler": "none", "max_ratio": "1"}
WORDS = {"scheduler": re.compile("scheduler", re.I), "max_ratio": re.compile("ratio|buffering", re.I)}
ERRS = [errno.EACCES, errno.EPERM, errno.EIO, errno.EROFS, errno.ENODEV, errno.EBUSY]


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []

    def emit(self, record):
        if record.levelno >= logging.INFO:
            self.lines.append(record.getMessage())


def reasons(spec):
    """Which tunables cannot be read or set, and why: {key: errno}."""
    result = {}
    for key in TUNED:
        value = spec["sysfs"][key]
        if value is None:
            result[key] = errno.ENOENT
            continue
        f = spec["faults"].get(key)
        tuned = re.sub(r".*\[(.*)\].*", r"\1", value.strip(), flags=re.S) == TUNED[key]
        if f and f[0] == "read":
            result[key] = f[1]
        elif tuned:
            continue
        elif f and f[0] in ("write", "late-write"):
            result[key] = f[1]
        elif key == "scheduler" and "none" not in value.replace("[", "").replace("]", "").split():
            result[key] = errno.EINVAL
    return result


def sys_faults(spec):
    return {(key, f[0]): f[1] for key, f in spec["faults"].items() if f}


def make(spec, d):
    return bdev.FakeBdev(d, 8 << 20, b"\x55" * 4096, sysfs=spec["sysfs"], partition=spec["part"], sys_faults=sys_faults(spec))


def check_log(lines, why):
    texts = {os.strerror(n) for n in why.values()}
    for key, n in why.items():
        found = [m for m in lines if WORDS[key].search(m) and os.strerror(n) in m]
        check(found, "%s could not be read or set (%s), but the messages do not say so: %r", key, os.strerror(n), lines)
    for key in TUNED:
        if key in why:
            continue
        wrong = [m for m in lines if WORDS[key].search(m) and any(t in m for t in texts) and not any(WORDS[k].search(m) for k in why)]
        check(not wrong, "%s was set, but there is the message %r", key, wrong)


def watch(dev, log):
    def on_write(_off, _n):
        # (After a failure the rest is written when the file is closed)
        if not dev.rec.triggered:
            log.append([dev.current("scheduler"), dev.current("max_ratio")])

    return on_write


def check_during(spec, seen, why):
    for key, i in (("scheduler", 0), ("max_ratio", 1)):
        if key in why:
            continue
        bad = [v[i] for v in seen if v[i] != TUNED[key]]
        check(not bad, "while writing, %s was %r", key, bad[:3])


def check_after(dev, spec, before, restore_fails):
    for key in TUNED:
        if key in restore_fails:
            continue
        check(dev.tunable(key) == before[key], "%s was %r and reads %r after the copy", key, before[key], dev.tunable(key))
        if spec["sysfs"][key] is not None and re.sub(r".*\[(.*)\].*", r"\1", spec["sysfs"][key].strip(), flags=re.S) == TUNED[key]:
            check((key, "w") not in [tuple(x) for x in dev.sys_log], "%s had the right value but was opened for writing", key)


def restore_failures(spec, why):
    result = []
    for key, f in spec["faults"].items():
        if f and f[0] == "restore" and key not in why and spec["sysfs"][key] is not None:
            if re.sub(r".*\[(.*)\].*", r"\1", spec["sysfs"][key].strip(), flags=re.S) != TUNED[key]:
                result.append(key)
    return result


SIZE = 3 << 20


def geometry(spec):
    if not spec["bmap"]:
        return SIZE - 100, 4096, [[0, (SIZE - 1) // 4096]]
    return SIZE - 100, 4096, [[0, 5], [7, 300], [302, 302], [310, (SIZE - 1) // 4096]]


def run(spec):
    util.patch_os()
    d = util.scratch("shm")
    size, bs, ranges = geometry(spec)
    image = fast_pattern(3, size)
    bmap = build_bmap("2.0", size, bs, ranges, image) if spec["bmap"] else None
    dev = make(spec, d)
    before = {k: dev.tunable(k) for k in TUNED}
    why = reasons(spec)
    restore_fails = restore_failures(spec, why)
    seen = []
    mem = MemImage(image)
    how, at = spec["end"]
    if how == "read":
        real, count = mem.read, [0]

        def read(n=-1):
            count[0] += 1
            if count[0] > at:
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            return real(n)

        mem.read = read
    elif how in ("write", "interrupt"):
        dev.rec.faults["write"] = {at: util.oserror(errno.EIO) if how == "write" else KeyboardInterrupt}
    elif how == "sync":
        dev.rec.faults["sync"] = {at: util.oserror(errno.EIO)}
    elif how == "short":
        mem = MemImage(image[:at * 1000000])
    dev.rec.on_write = watch(dev, seen)
    handler = Log()
    logging.getLogger().addHandler(handler)
    old_level = logging.getLogger().level
    logging.getLogger().setLevel(logging.INFO)
    interrupted = False
    out = None
    try:
        with dev:
            dest = open(dev.path, "wb")
            dev.rec.events.clear()
            try:
                out = do_copy(mem, dest, bmap_file(d, bmap) if bmap else None, size, spec["sync"], True, bdev=True)
            except KeyboardInterrupt:
                interrupted = True
            dev.rec.on_write = None
            dev.rec.faults.clear()
            try:
                dest.close()
            except OSError:
                pass
    finally:
        logging.getLogger().removeHandler(handler)
        logging.getLogger().setLevel(old_level)
    triggered = interrupted or bool(dev.rec.triggered) or how == "short" or (how == "read" and count[0] > at)
    check_after(dev, spec, before, restore_fails)
    check_during(spec, seen, why)
    check_log(handler.lines, why)
    if interrupted:
        pass
    elif triggered or restore_fails:
        check(out.kind != "ok", "the copy (%r) was to fail, but it succeeded", spec["end"])
        if not triggered:
            text = str(out.exc)
            check(out.kind == "error" and any(k in text for k in restore_fails), "%r could not be restored, but: %r", restore_fails, out)
    else:
        check(out.kind == "ok", "tuning (%r) got in the way of the copy: %r", why, out)
        want = bytearray(b"\x55" * 4096 + bytes((8 << 20) - 4096))
        for a, b in ranges:
            want[a * bs:min((b + 1) * bs, size)] = image[a * bs:(b + 1) * bs]
        check(dev.contents() == bytes(want), "the device has wrong contents")
    return Info(True, "ends: %s" % (how if triggered else "success"), "not tunable: %s" % (",".join(sorted(why)) or "nothing"), *["not restored: %s" % k for k in restore_fails])


SCHED = st.one_of(
    st.sampled_from(["[mq-deadline] none\n", "mq-deadline kyber [bfq] none\n", "none [mq-deadline] bfq\n", "[none] mq-deadline\n", "none\n", "[none]\n", "noop [cfq]\n",
                     "[deadline] noop\n", "none mq-deadline kyber [bfq]\n", "mq-deadline [none]\n"]), st.none())
RATIO = st.one_of(gen.ints(0, 100).map(lambda n: "%d\n" % n), st.sampled_from(["1\n", "100\n"]), st.none())
FAULT = gen.weighted((5, st.none()), (3, st.tuples(st.sampled_from(["read", "write", "late-write", "restore"]), st.sampled_from(ERRS)).map(list)))
END = gen.weighted((3, st.just(["ok", 0])), (1, st.tuples(st.just("read"), gen.ints(0, 3)).map(list)), (1, st.tuples(st.just("write"), gen.ints(0, 5)).map(list)),
                   (1, st.tuples(st.just("interrupt"), gen.ints(0, 5)).map(list)), (1, st.tuples(st.just("sync"), gen.ints(0, 1)).map(list)),
                   (1, st.tuples(st.just("short"), gen.ints(0, 2)).map(list)))


def strategy():
    return st.fixed_dictionaries({
        "sysfs": st.fixed_dictionaries({"scheduler": SCHED, "max_ratio": RATIO}), "part": st.booleans(),
        "faults": st.fixed_dictionaries({"scheduler": FAULT, "max_ratio": FAULT}), "end": END, "bmap": st.booleans(), "sync": st.booleans()})


def run_cli(spec):
    d = util.scratch("shm")
    size, bs, ranges = geometry(spec)
    image = fast_pattern(3, size)
    data = image
    name = "i.img"
    how = spec["end"][0]
    if how == "read":
        name = "i.img.gz"
        data = comp.pack("gz", image, d)[:spec["end"][1] * 800000 + 30]
    elif how == "short":
        data = image[:spec["end"][1] * 1000000]
        spec = dict(spec, bmap=True)
        size, bs, ranges = geometry(spec)
    with open(os.path.join(d, name), "wb") as f:
        f.write(data)
    if spec["bmap"]:
        with open(os.path.join(d, "i.img.bmap"), "wb") as f:
            f.write(build_bmap("2.0", size, bs, ranges, image))
    dev = make(spec, d)
    before = {k: dev.tunable(k) for k in TUNED}
    why = reasons(spec)
    restore_fails = restore_failures(spec, why)
    faults = {}
    at = spec["end"][1]
    if how in ("write", "interrupt"):
        faults["write"] = {at: util.oserror(errno.EIO) if how == "write" else KeyboardInterrupt}
    elif how == "sync":
        faults["sync"] = {at: util.oserror(errno.EIO)}

    def on_write(_off, _n):
        if not dev.rec.triggered and how not in ("read", "short"):
            dev.sys_log.append(("during", [dev.current("scheduler"), dev.current("max_ratio")]))

    dev.rec.on_write = on_write
    res, rep = run_recorded_cli(["copy"] + ([] if spec["bmap"] else ["--nobmap"]) + [name, dev.path], d, dev.path, dev, faults=faults)
    check(rep is not None, "no report: %r", res)
    seen = [x[1] for x in rep["sys_log"] if x[0] == "during"]
    dev.sys_log[:] = [tuple(x) for x in rep["sys_log"] if x[0] != "during"]
    check_after(dev, spec, before, restore_fails)
    check_during(spec, seen, why)
    lines = [x for x in re.split(r"(?m)^bmaptool: ", res.err)]
    if how != "short":  # (refused before the copy starts)
        check_log(lines, why)
    failed = bool(rep["triggered"]) or how in ("read", "short") or bool(restore_fails)
    if failed:
        check(res.code > 0, "the copy was to fail, but: %r", res)
    else:
        check(res.code == 0, "tuning (%r) got in the way of the copy: %r", why, res)
    return Info(True, "ends: %s" % (how if failed else "success"), "not tunable: %s" % (",".join(sorted(why)) or "nothing"))


PROPERTY = Property(
    "B02",
    "Copies to a stand-in for a block device whose tunables behave like the kernel's (they refuse unknown values, the scheduler is a list with the active one in brackets): initial values "
    "x absent/unreadable/unwritable/not restorable tunables x disk or partition x outcomes (success, read, write or synchronization fault, image too short, interruption), through the class "
    "and the command line. The tunables are sampled at every write and compared at the end. Every case is non-trivial.",
    [Facet("device", strategy, run, quick=1200, thorough=16000, shards=4),
     Facet("cli", strategy, run_cli, quick=300, thorough=4000, shards=3, noise="dspn")],
    ["the stand-in behaves like a block device in all respects the code can see"],
)
