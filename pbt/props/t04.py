"""T04: closing the reader releases everything it started."""

import gc
import os
import threading
import time

from hypothesis import strategies as st

from pbt import comp, gen, remote, util
from pbt.core import Facet, Info, Property, Violation
from pbt.util import check, content

GRACE = 5


def descriptors():
    result = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            result[int(n)] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return result


def processes():
    """Processes of our group: {pid: name}, including dead ones nobody waited for."""
    me = os.getpgrp()
    result = {}
    for n in os.listdir("/proc"):
        if not n.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % n, "rb") as f:
                text = f.read().decode(errors="replace")
        except OSError:
            continue
        tail = text[text.rindex(")") + 2:].split()
        if tail[0] in "ZX" and int(tail[1]) != os.getpid():
            continue  # (dead, and others have to notice it)
        if int(tail[2]) == me:
            result[int(n)] = "%s (%s)" % (text[text.index("(") + 1:text.rindex(")")], tail[0])
    return result


def settle(what, func):
    """Wait until func() gives nothing; it may take a moment."""
    deadline = time.time() + GRACE
    pause = 0.001
    while True:
        left = func()
        if not left:
            return
        if time.time() > deadline:
            raise Violation("%s after closing: %r" % (what, left))
        time.sleep(pause)
        pause = min(pause * 2, 0.1)


def run(spec):
    d = util.scratch("ext")
    ext = spec["ext"]
    data = content(spec["img"], spec["n"])
    stored = comp.pack(ext, data, d) if ext else data
    if spec["damage"] == "cut":
        stored = stored[:len(stored) // 2]
    elif spec["damage"] == "foreign":
        stored = b"something else " * 5000
    kind = spec["source"]
    route = {"cut": 70000 if len(stored) > 70000 else len(stored) // 2, "stall": True} if spec["stall"] else None
    src = remote.Source(kind, d, "i." + (ext or "img"), stored, route=route)
    gc.collect()
    errors = []
    old_hook = threading.excepthook
    threading.excepthook = lambda a: errors.append("%s: %s" % (a.exc_type.__name__, a.exc_value))
    before_fd, before_proc, before_thr = descriptors(), processes(), set(threading.enumerate())
    got = 0
    failed = None
    obj = None
    try:
        with remote.path_env(**src.env):
            obj = src.open()
            amount = {"nothing": 0, "little": 100, "third": len(data) // 3, "all": len(data) + 10}[spec["amount"]]
            if spec["stall"]:
                amount = min(amount, 100) if not ext else 0
            try:
                while got < amount:
                    buf = obj.read(min(amount - got, spec["step"]))
                    if not buf:
                        break
                    got += len(buf)
            except Exception as exc:  # pylint: disable=broad-except
                if not spec["damage"]:
                    raise
                failed = exc
                failed.__traceback__ = None
            if spec["pause"]:
                time.sleep(0.03)
            start = time.time()
            how = spec["how"]
            if how == "close":
                obj.close()
            elif how == "twice":
                obj.close()
                obj.close()
            if how == "drop":
                ref = obj
                del ref
            obj = None
            gc.collect()
            took = time.time() - start
        check(took < GRACE + 5, "closing took %d s", took)
        settle("threads are left", lambda: sorted(str(t) for t in set(threading.enumerate()) - before_thr))
        settle("processes are left", lambda: {p: n for p, n in processes().items() if p not in before_proc and not (kind == "pipe" and n.startswith("cat "))})

        def fds():
            return {n: t for n, t in descriptors().items() if n not in before_fd and not t.startswith("/proc/") and not (kind == "pipe" and t.startswith("pipe:"))}

        settle("descriptors are left", fds)
        check(not errors, "a thread ended with %s", errors)
    finally:
        threading.excepthook = old_hook
    return Info(True, kind, "compressed" if ext and kind != "pipe" else "plain", "read: %s" % spec["amount"], spec["how"], "stalled" if spec["stall"] else "running",
                "read error" if failed else "no read error")


def strategy():
    return st.fixed_dictionaries({
        "ext": gen.weighted((2, st.just("")), (5, st.sampled_from(sorted(comp.EXTS)))), "img": st.fixed_dictionaries({"seed": gen.ints(0, 20), "kind": st.sampled_from(["rand", "rand", "zero", "text"])}),
        "n": st.one_of(gen.ints(1, 9000), st.sampled_from([1 << 20, 65536]), gen.ints(1 << 20, 8 << 20)), "damage": gen.weighted((4, st.just("")), (1, st.sampled_from(["cut", "foreign"]))),
        "source": st.sampled_from(remote.SOURCES), "amount": st.sampled_from(["nothing", "little", "third", "all"]), "step": st.sampled_from([1 << 20, 4096, 50000]),
        "how": st.sampled_from(["close", "twice", "drop"]), "pause": st.booleans(), "stall": st.just(False)})


_C = {"img": {"kind": "rand", "seed": 2}, "n": 5 << 20, "damage": "", "step": 1 << 20, "pause": True, "stall": False}
CORNER = [dict(_C, ext=e, source=s, amount=a, how=h) for e in ("", "gz", "tar.bz2", "zip") for s in remote.SOURCES for a, h in (("nothing", "close"), ("little", "drop"), ("third", "twice"), ("all", "close"))]
CORNER += [dict(_C, ext=e, source=s, amount=a, how="close", stall=True) for e in ("", "gz", "tgz", "lz4") for s in ("http", "http-chunked", "http-close", "https", "https-chunked", "ftp") for a in ("nothing", "little")]

PROPERTY = Property(
    "T04",
    "Readers over every kind of source and format, sound, cut or foreign contents, closed (once, twice, by the garbage collector) after nothing, a little, a third or all was read, also while "
    "the server has stopped sending: threads, processes (of the whole process group, also dead ones) and descriptors are compared with those before. Every case is non-trivial.",
    [Facet("close", strategy, run, quick=700, thorough=9000, shards=8, corner=CORNER, timeout=60)],
    ["processes may take %d s to vanish" % GRACE],
)
