"""K10: progress and reported geometry are truthful."""

import fcntl
import io
import os
import re
import sys
import threading

from hypothesis import strategies as st

from pbt import bdev, gen, util
from pbt.copyh import bmap_file, do_copy, expected, image_content
from pbt.core import Facet, Info, Property, Violation
from pbt.util import MemImage, build_bmap, check, content

UNITS = {"bytes": 1, "KiB": 1 << 10, "MiB": 1 << 20, "GiB": 1 << 30, "TiB": 1 << 40, "PiB": 1 << 50, "EiB": 1 << 60}


def human_ok(text, size):
    m = re.match(r"^([0-9.]+) (bytes|byte|[KMGTPE]iB)$", text or "")
    if not m:
        return False
    if m.group(2) == "byte":
        return size == 1
    unit = UNITS[m.group(2)]
    return abs(float(m.group(1)) * unit - size) <= 0.0501 * unit


class CountingDest(object):
    """The destination, counting what is written through it."""

    def __init__(self, f, bs):
        self.f = f
        self.name = f.name
        self.bs = bs
        self.blocks = 0
        self.bytes = 0
        self.hooks = {}
        self.writes = 0
        self.shares = []
        self.mapped = None

    def write(self, buf):
        hook = self.hooks.pop(self.writes, None)
        if hook:
            hook()
        self.writes += 1
        n = self.f.write(buf)
        self.blocks += (len(buf) + self.bs - 1) // self.bs
        self.bytes += len(buf)
        if self.mapped:
            self.shares.append(self.blocks * 100 // self.mapped)
        return n

    def __getattr__(self, name):
        return getattr(self.f, name)


class Console(io.StringIO):
    """What the progress indicator is printed to."""

    def __init__(self, dest):
        io.StringIO.__init__(self)
        self.dest = dest
        self.log = []

    def write(self, text):
        self.log.append((text, self.dest.blocks))
        return io.StringIO.write(self, text)


FORMATS = [None, "Copied %d%%", "bmaptool: info: %d%% copied", "[%d]", "%d"]


def percent_re(fmt):
    return re.compile(re.escape(fmt or "Copied %d%%").replace("%d", "(-?[0-9]+)").replace("%%", "%"))


def run(spec):
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch("shm")
    image = content(spec["img"], size)
    bmap = build_bmap(g["version"], size, bs, ranges, image if spec["chk"] else None, style=g["style"]) if spec["bmap"] else None
    if not bmap:
        bs, ranges = 4096, [[0, (size - 1) // 4096]]
    mapped = sum(b - a + 1 for a, b in ranges)
    nblk = (size + bs - 1) // bs
    declared = size if spec["declare"] else None
    known = bool(bmap or declared)
    path = os.path.join(d, "dest")
    raw = open(path, "wb+")
    dest = CountingDest(raw, bs)
    dest.mapped = mapped if known else None
    console = Console(dest)
    fifo = os.path.join(d, "psplash")
    how = spec["psplash"]
    state = {"fd": None, "wfd": None, "got": b"", "want_all": False}

    def open_reader():
        state["fd"] = os.open(fifo, os.O_RDONLY | os.O_NONBLOCK)

    def drop_reader():
        read_all()
        os.close(state["fd"])
        state["fd"] = None

    def read_all():
        while state["fd"] is not None:
            try:
                buf = os.read(state["fd"], 65536)
            except BlockingIOError:
                break
            if not buf:
                break
            state["got"] += buf

    use = fifo
    if how == "missing":
        use = os.path.join(d, "no", "such")
    elif how == "file":
        with open(fifo, "wb") as f:
            f.write(b"precious")
    elif how == "dir":
        os.mkdir(fifo)
    elif how == "null":
        use = "/dev/null"
    elif how != "none":
        os.mkfifo(fifo)
        if how in ("read", "leave", "full"):
            open_reader()
        state["want_all"] = how == "read"
        if how == "full":
            state["wfd"] = os.open(fifo, os.O_WRONLY | os.O_NONBLOCK)
            try:
                while True:
                    os.write(state["wfd"], b"x" * 4096)
            except BlockingIOError:
                pass
            try:
                while True:
                    os.write(state["wfd"], b"x")
            except BlockingIOError:
                pass
        if how == "leave":
            dest.hooks[spec["at"] % 4] = drop_reader
        if how == "late":
            dest.hooks[spec["at"] % 4] = open_reader
        if how == "gone":
            dest.hooks[spec["at"] % 4] = lambda: os.unlink(fifo)

    def before(writer):
        if bmap or declared:
            geometry(writer)
        if spec["console"]:
            if spec["fmt"]:
                writer.set_progress_indicator(console, FORMATS[spec["fmt"] % len(FORMATS)])
            else:
                writer.set_progress_indicator(console, None)
        if how != "none":
            writer.set_psplash_pipe(use)

    def geometry(w):
        check(w.image_size == size, "image size %r, should be %d", w.image_size, size)
        check(w.block_size == bs, "block size %r, should be %d", w.block_size, bs)
        check(w.blocks_cnt == nblk, "blocks count %r, should be %d", w.blocks_cnt, nblk)
        check(w.mapped_cnt == mapped, "mapped count %r, should be %d", w.mapped_cnt, mapped)
        check(w.mapped_size == (mapped * bs if bmap else size), "mapped size %r", w.mapped_size)
        check(human_ok(w.image_size_human, size), "image size %r for %d", w.image_size_human, size)
        check(human_ok(w.mapped_size_human, w.mapped_size), "mapped size %r for %d", w.mapped_size_human, w.mapped_size)
        check(abs(w.mapped_percent - mapped * 100.0 / nblk) < 1e-6, "mapped percentage %r, should be %r", w.mapped_percent, mapped * 100.0 / nblk)
        if bmap:
            check(str(w.bmap_version) == g["version"], "bmap version %r", w.bmap_version)

    data = bytearray(image)
    bad = spec["bad"] and bmap and spec["chk"]
    if bad:
        data[ranges[-1][0] * bs] ^= 1
    fds = sorted(os.listdir("/proc/self/fd"))
    f = bmap_file(d, bmap) if bmap else None
    opened = 1 if f else 0
    out = do_copy(MemImage(bytes(data)), dest, f, declared, spec["sync"], True, before=before)
    moved = {"leave": -1, "late": 1}.get(how, 0) if not dest.hooks else 0
    check(len(os.listdir("/proc/self/fd")) <= len(fds) + opened + moved, "file descriptors were left open: %r, before %r", sorted(os.listdir("/proc/self/fd")), fds)
    read_all()
    for key in ("fd", "wfd"):
        if state[key] is not None:
            os.close(state[key])
    raw.close()
    if bad:
        check(out.kind == "error", "wrong data: %r", out)
    else:
        check(out.kind == "ok", "the copy gave %r (psplash pipe: %s)", out, how)
        geometry(out.writer)
        with open(path, "rb") as o:
            check(o.read() == expected(b"", image, size, bs, ranges), "the copy is wrong")
    # Console
    fmt = FORMATS[spec["fmt"] % len(FORMATS)] if spec["fmt"] else None
    rx = percent_re(fmt)
    seen = []
    for text, blocks in console.log:
        text = re.sub("\033\\[[0-9;]*[A-Za-z]", "", text)
        if not known:
            check(not rx.search(text), "a percentage is shown though the size is unknown: %r", text)
            continue
        m = rx.search(text)
        if m:
            p = int(m.group(1))
            check(p == blocks * 100 // mapped, "%d%% shown after %d blocks of %d", p, blocks, mapped)
            check(not seen or p >= seen[-1], "the progress went back from %r to %d", seen[-1:], p)
            check(0 <= p <= 100, "%d%% shown", p)
            seen.append(p)
        else:
            check(not text.strip(), "odd progress output %r", text)
    if spec["console"] and known and mapped and not bad:
        check(seen and seen[-1] == 100, "the last progress shown is %r", seen[-1:])
    if not spec["console"]:
        check(not console.log, "progress was printed without being asked for: %r", console.log[:3])
    # Splash pipe
    if how == "file":
        with open(fifo, "rb") as o:
            check(o.read() == b"precious", "a regular file was taken for the splash pipe")
    got = state["got"].lstrip(b"x").decode()
    lines = got.split("\n")
    check(lines[-1] == "", "incomplete line sent to the splash pipe: %r", lines[-1])
    values = []
    for line in lines[:-1]:
        m = re.match(r"^PROGRESS (\d+)$", line)
        check(m, "odd line sent to the splash pipe: %r", line)
        values.append(int(m.group(1)))
    if known:
        it = iter(dest.shares)
        check(all(any(v == s for s in it) for v in values), "splash progress %r does not follow the shares written %r", values[:20], dest.shares[:20])
        if state["want_all"] and not bad and mapped:
            check(values and values[-1] == 100, "the last splash progress is %r", values[-1:])
    else:
        check(not values, "splash progress %r though the size is unknown", values[:3])
    return Info(len(dest.shares) > 1 and (spec["console"] or how in ("read", "leave", "late")), "psplash " + how, "console" if spec["console"] else "no console",
                "%s updates" % (len(seen) if len(seen) < 3 else "several"), "size known" if known else "size unknown")


def many_batches():
    """Geometries which give several progress updates."""
    return gen.weighted(
        (2, gen.geometry(max_bytes=4 << 20, nonempty=True)),
        (2, st.tuples(st.sampled_from([4096, 512, 1000]), gen.ints(2, 220), gen.ints(1, 2), gen.ints(1, 2), st.sampled_from(["1.2", "1.3", "1.4", "2.0"]), gen.ints(0, 511)).map(
            lambda t: {"bs": t[0], "size": t[1] * (t[2] + t[3]) * t[0] - t[5], "version": t[4], "style": 0,
                       "ranges": [[i * (t[2] + t[3]), i * (t[2] + t[3]) + t[2] - 1] for i in range(t[1])]})))


def strategy():
    return st.fixed_dictionaries({
        "g": many_batches(), "img": image_content, "chk": st.booleans(), "bmap": gen.weighted((5, st.just(True)), (1, st.just(False))), "declare": st.booleans(),
        "console": gen.weighted((3, st.just(True)), (1, st.just(False))), "fmt": gen.ints(0, 4),
        "psplash": st.sampled_from(["none", "read", "read", "leave", "late", "full", "closed", "missing", "file", "dir", "gone", "null"]),
        "at": gen.ints(0, 3), "sync": st.booleans(), "bad": gen.weighted((6, st.just(False)), (1, st.just(True)))})


# --- command line -----------------------------------------------------------


def run_cli(spec):
    g = spec["g"]
    bs, size, ranges = g["bs"], g["size"], g["ranges"]
    d = util.scratch("shm")
    image = content(spec["img"], size)
    with open(os.path.join(d, "i.img"), "wb") as f:
        f.write(image)
    if spec["bmap"]:
        with open(os.path.join(d, "i.img.bmap"), "wb") as f:
            f.write(build_bmap(g["version"], size, bs, ranges, image, style=g["style"]))
    else:
        bs, ranges = 4096, [[0, (size - 1) // 4096]]
    mapped = sum(b - a + 1 for a, b in ranges)
    nblk = (size + bs - 1) // bs
    args = {"": [], "q": ["-q"], "d": ["-d"]}[spec["level"]] + ["copy"] + ([] if spec["bmap"] else ["--nobmap"])
    fifo = os.path.join(d, "pipe")
    rfd = None
    if spec["psplash"] != "none":
        args += ["--psplash-pipe", fifo]
        if spec["psplash"] in ("read", "closed"):
            os.mkfifo(fifo)
        if spec["psplash"] == "read":
            rfd = os.open(fifo, os.O_RDONLY | os.O_NONBLOCK)
        if spec["psplash"] == "file":
            with open(fifo, "wb") as f:
                f.write(b"precious")
    tty = os.path.join(d, "tty.out")
    box = {}

    def setup():
        master, slave = os.openpty()
        sink = os.open(tty, os.O_WRONLY | os.O_CREAT)

        def pump():
            while True:
                try:
                    buf = os.read(master, 65536)
                except OSError:
                    break
                if not buf:
                    break
                os.write(sink, buf)

        os.dup2(slave, 1)
        os.dup2(slave, 2)
        os.close(slave)
        box["t"] = threading.Thread(target=pump, daemon=True)
        box["t"].start()

    def finish():
        sys.stdout.flush()
        sys.stderr.flush()
        null = os.open("/dev/null", os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        box["t"].join(10)

    res = util.run_cli(args + ["i.img", "out"], d, child_setup=setup if spec["tty"] else None, child_finish=finish if spec["tty"] else None)
    text = res.err
    if spec["tty"]:
        with open(tty, "rb") as f:
            text = f.read().decode(errors="replace").replace("\r\n", "\n")
    check(res.code == 0, "copying failed: %r %s", res, text[-1500:])
    with open(os.path.join(d, "out"), "rb") as f:
        check(f.read() == expected(b"", image, size, bs, ranges), "the copy is wrong")
    shown = [int(x) for x in re.findall(r"(?<![0-9.])(-?\d+)% copied", text)]
    if spec["level"] == "" and spec["tty"]:
        check(shown and shown[-1] == 100, "the progress shown on the terminal is %r", shown[-5:])
        check(shown == sorted(shown) and 0 <= shown[0], "the progress shown on the terminal is %r", shown[:30])
    else:
        check(not shown, "progress %r was shown (%r, terminal %s)", shown[:3], spec["level"], spec["tty"])
    if spec["bmap"] and spec["level"] == "":
        m = re.search(r"(\d+) blocks of size (\d+) \(([^)]*)\), mapped (\d+) blocks \((.*?) or ([0-9.]+)%\)", text)
        check(m, "the geometry is not reported: %r", text[-800:])
        check((int(m.group(1)), int(m.group(2)), int(m.group(4))) == (nblk, bs, mapped), "reported %r, should be %d blocks of size %d, mapped %d", m.group(0), nblk, bs, mapped)
        check(human_ok(m.group(3), size) and human_ok(m.group(5), mapped * bs), "reported %r for %d and %d bytes", m.group(0), size, mapped * bs)
        check(abs(float(m.group(6)) - mapped * 100.0 / nblk) <= 0.0501, "reported %s%%, should be %r", m.group(6), mapped * 100.0 / nblk)
        check("format version %s" % g["version"] in text, "the format version is not reported")
    if rfd is not None:
        got = os.read(rfd, 65536).decode()
        os.close(rfd)
        values = [int(x) for x in re.findall(r"^PROGRESS (\d+)$", got, re.M)]
        check(values and values[-1] == 100 and values == sorted(values), "splash progress %r", got[-200:])
    if spec["psplash"] == "file":
        with open(fifo, "rb") as f:
            check(f.read() == b"precious", "a regular file was taken for the splash pipe")
    return Info(spec["tty"] or spec["psplash"] != "none" or spec["bmap"], "terminal" if spec["tty"] else "no terminal", "psplash " + spec["psplash"], "level " + spec["level"])


def cli_st():
    return st.fixed_dictionaries({
        "g": many_batches(), "img": image_content, "bmap": gen.weighted((4, st.just(True)), (1, st.just(False))), "level": gen.weighted((4, st.just("")), (1, st.sampled_from(["q", "d"]))),
        "psplash": st.sampled_from(["none", "read", "closed", "missing", "file"]), "tty": gen.weighted((3, st.just(True)), (1, st.just(False)))})


PROPERTY = Property(
    "K10",
    "Copies with many small or few large transfers, with a console object and/or a splash pipe that is read, full, unread, closed or opened midway, removed, missing, a file, directory or "
    "device; every shown percentage is compared with the blocks handed to the destination so far, the geometry attributes with the bmap; and the command line with and without a "
    "terminal (pseudo terminal), its geometry message included; non-trivial: at least two updates and someone watching.",
    [Facet("progress", strategy, run, quick=3000, thorough=20000, shards=5),
     Facet("cli", cli_st, run_cli, quick=320, thorough=3000, shards=2)],
)
