"""C03: creating a bmap changes nothing else and is repeatable."""

import contextlib
import errno
import io
import os

from hypothesis import strategies as st

from pbt import gen, util
from pbt.core import Facet, Info, Property, Violation
from pbt.props import c01
from pbt.util import check


def state(path):
    s = os.stat(path)
    return (s.st_size, s.st_mtime_ns, s.st_ctime_ns, s.st_ino, s.st_mode, s.st_blocks)


def generate(spec, path, d, how, pos, old, tmp=None):
    """-> (bmap bytes, position afterwards or None)"""
    from bmaptools import BmapCreate

    out = os.path.join(d, "out-" + how)
    if old is not None:
        with open(out, "wb") as f:
            f.write(b"#" * old)
        if tmp:
            os.chown(out, util.USER, util.USER)
    who = util.as_user(tmp) if tmp else contextlib.nullcontext()
    if how == "path":
        with who:
            c = BmapCreate.BmapCreate(path, out, "sha256")
            c.generate(spec["chk"])
            del c
        after = None
    elif how in ("obj", "objrw", "raw"):
        mode = {"obj": "rb", "objrw": "rb+", "raw": "rb"}[how]
        with who, open(path, mode, buffering=0 if how == "raw" else -1) as fi, open(out, "w+") as fo:
            fi.seek(pos)
            if spec["preread"]:
                fi.read(min(spec["preread"], 100))
                fi.seek(pos)
            c = BmapCreate.BmapCreate(fi, fo, "sha256")
            c.generate(spec["chk"])
            after = fi.tell()
            check(not fi.closed and not fo.closed, "the caller's files were closed")
            del c
            check(not fi.closed and not fo.closed, "the caller's files were closed")
    else:
        args = ["create"] + ([] if spec["chk"] else ["--no-checksum"])
        if how == "cli-o":
            args += ["-o", out, path]
        elif how == "cli-rel":
            args += ["--output", os.path.basename(out), os.path.relpath(path, d)]
        else:
            args += [path]
        res = util.run_cli(args, d, child_setup=(lambda: util.become_user(tmp)) if tmp else None)
        check(res.code == 0, "creating the bmap failed: %r", res)
        if how == "stdout":
            if os.path.exists(out):
                os.unlink(out)
            return res.out, None
        after = None
    with open(out, "rb") as f:
        data = f.read()
    os.unlink(out)
    return data, after


def run(spec):
    d, img = c01.setup_image(spec)
    os.sync if False else None
    fd = os.open(img.path, os.O_RDONLY)
    os.fsync(fd)
    os.close(fd)
    work = util.scratch("ext")
    tmp = None
    if spec.get("user") and "objrw" not in spec["hows"] and util.may_change_user():
        # The image may only be read
        tmp = util.for_user(d)
        util.for_user(work)
    sum0 = util.sha(img.path) if img.size < 64 << 20 else None
    st0 = state(img.path)
    names0 = sorted(os.listdir(d))
    hows = spec["hows"]
    results = []
    pos = spec["pos"] % (img.size + 1)
    with c01.method_scope(spec):
        for i, how in enumerate(hows):
            data, after = generate(spec, img.path, work, how, pos, spec["old"] if i % 2 else None, tmp)
            results.append((how, data))
            check(after is None or after == pos, "file position changed from %d to %r", pos, after)
            check(state(img.path) == st0, "the image's attributes changed from %r to %r", st0, state(img.path))
            check(sum0 is None or util.sha(img.path) == sum0, "the image's contents changed")
            check(sorted(os.listdir(d)) == names0, "files appeared next to the image: %r", os.listdir(d))
            check(os.listdir(work) == [], "files appeared next to the bmap: %r", os.listdir(work))
    for how, data in results[1:]:
        check(data == results[0][1], "the bmap by %s differs from the one by %s:\n%r\n%r", how, results[0][0], data[-900:], results[0][1][-900:])
    lab = ["as an ordinary user"] if tmp else []
    lab += ["fs:" + spec["img"]["fs"], "method:" + spec["method"], "outputs:%d" % len(set(hows))] + ["by " + h for h in set(hows)]
    if spec["twin"]:
        d2 = util.scratch(spec["img"]["fs"])
        twin = gen.build_image(spec["img"], d2, "a different name.raw")
        if util.holes_by_seek(twin.path) == util.holes_by_seek(img.path):
            with c01.method_scope(spec):
                data, _ = generate(spec, twin.path, work, hows[0], 0, None)
            check(data == results[0][1], "the bmap of an identical image elsewhere differs")
            lab.append("twin")
    return Info(len(img.touched.spans) > 0 and len(set(hows)) > 1, *lab)


def strategy():
    return st.fixed_dictionaries({
        "img": gen.sparse_image(comb=False, max_blocks=40, huge=False),
        "method": gen.weighted((4, st.just("native")), (1, st.just("seek")), (1, st.just("scripted"))), "fm": c01.fm_st(), "block": c01.bs_st(),
        "user": gen.weighted((2, st.just(False)), (1, st.just(True))),
        "hows": st.lists(st.sampled_from(["path", "obj", "objrw", "raw", "cli-o", "cli-rel", "stdout"]), min_size=2, max_size=4),
        "pos": gen.ints(0, 1 << 20),
        "preread": st.sampled_from([0, 10]),
        "old": st.sampled_from([0, 10, 100000]),
        "chk": st.booleans(),
        "twin": st.booleans(),
    }).map(c01.set_block)


# Creations which fail


@contextlib.contextmanager
def broken_seek(how, directory, num):
    """No extent map, and hole seeking which does not work either."""
    real = {k: getattr(os, k) for k in ("lseek", "open", "ftruncate")}

    def lseek(fd, off, whence):
        if whence not in (3, 4):
            return real["lseek"](fd, off, whence)
        if how == "einval":
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        size = os.fstat(fd).st_size
        if off >= size:
            raise OSError(errno.ENXIO, os.strerror(errno.ENXIO))
        # Everything is data
        return off if whence == 3 else size

    def osopen(path, flags, *args, **kwargs):
        if flags & (os.O_CREAT | os.O_TMPFILE) and flags & os.O_ACCMODE != os.O_RDONLY and os.path.abspath(os.fspath(path)).startswith(directory):
            raise OSError(num, os.strerror(num), path)
        return real["open"](path, flags, *args, **kwargs)

    def ftruncate(fd, n):
        raise OSError(num, os.strerror(num))

    if how in ("stub", "einval"):
        os.lseek = lseek
    elif how == "nodir":
        os.open = osopen
    elif how == "resize":
        os.ftruncate = ftruncate
    try:
        with c01.no_fiemap(num if num in (errno.EOPNOTSUPP, errno.ENOTTY) else errno.EOPNOTSUPP):
            yield
    finally:
        for k, v in real.items():
            setattr(os, k, v)


class BadRaw(io.FileIO):
    """An image which cannot be read from some place on."""

    bad = 0

    def readinto(self, b):
        pos = io.FileIO.tell(self)
        if pos + len(b) > self.bad:
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        return io.FileIO.readinto(self, b)


def run_failing(spec):
    from bmaptools import BmapCreate

    d, img = c01.setup_image(spec)
    if spec["why"] == "empty":
        os.truncate(img.path, 0)
    fd = os.open(img.path, os.O_RDONLY)
    os.fsync(fd)
    os.close(fd)
    work = util.scratch("ext")
    sum0 = util.sha(img.path)
    st0 = state(img.path)
    names0 = sorted(os.listdir(d))
    why = spec["why"]
    out = os.path.join(work, "out")
    if why == "outdir":
        out = os.path.join(work, "none", "out")
    elif why == "outfull":
        out = "/dev/full"
    seeks = why in ("stub", "einval", "nodir", "resize")
    scope = broken_seek(why, d, spec["errno"]) if seeks else c01.method_scope(spec)
    failed = None
    files = []
    path = img.path
    how = spec["how"]
    if how == "rel":
        here = os.getcwd()
        util.at_case_end(lambda: os.chdir(here))
        os.chdir(d)
        path = os.path.basename(path)
    if how == "cli":
        stack = contextlib.ExitStack()
        res = util.run_cli(["create"] + ([] if spec["chk"] else ["--no-checksum"]) + (["-o", out] if out else []) + [path], work,
                           child_setup=lambda: stack.enter_context(scope) and None, child_finish=stack.close)
        failed = res.code != 0
        text = repr(res)
    else:
        creator = None
        try:
            with scope:
                if why == "read" or how == "obj":
                    fi = BadRaw(path, "r")
                    fi.bad = spec["bad"] % (img.size + 1) if why == "read" else 1 << 60
                    fi = io.BufferedReader(fi)
                    files.append(fi)
                    fo = open(out, "w+") if why not in ("outdir", "outfull") else None
                    if fo:
                        files.append(fo)
                    creator = BmapCreate.BmapCreate(fi, fo or out, "sha256")
                else:
                    creator = BmapCreate.BmapCreate(path, out, "sha256")
                creator.generate(spec["chk"])
            failed, text = False, "success"
        except Violation:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            failed, text = True, repr(exc)
            exc.__traceback__ = None
        for f in files:
            check(not f.closed, "the caller's files were closed")
        del creator
        for f in files:
            check(not f.closed, "the caller's files were closed")
            try:
                f.close()
            except OSError:
                pass
    if why in ("empty", "outdir", "outfull"):
        check(failed, "the bmap cannot be created (%s), but: %s", why, text)
    check(state(img.path) == st0 and util.sha(img.path) == sum0, "creation failed (%s), and the image changed", text)
    check(sorted(os.listdir(d)) == names0, "creation failed (%s), files next to the image: %r", text, os.listdir(d))
    check(set(os.listdir(work)) <= {"out"}, "creation failed (%s), files next to the bmap: %r", text, os.listdir(work))
    return Info(failed, why, "by " + how)


def failing_st():
    return st.fixed_dictionaries({
        "img": gen.sparse_image(comb=False, max_blocks=40, huge=False), "method": st.sampled_from(["native", "seek"]), "chk": st.booleans(),
        "why": st.sampled_from(["stub", "stub", "einval", "nodir", "resize", "read", "empty", "outdir", "outfull"]),
        "errno": st.sampled_from([errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EOPNOTSUPP, errno.ENOTTY]), "how": st.sampled_from(["path", "rel", "obj", "cli"]),
        "bad": gen.ints(0, 1 << 20)})


PROPERTY = Property(
    "C03",
    "A random sparse image on disk/tmpfs; two to four creations in random order through seven channels (path, buffered/raw/read-write file objects "
    "at a random position, command line to absolute/relative file and to stdout, over old output contents; as root or as an ordinary user who may only read the image), then possibly an identical image elsewhere; and creations which fail "
    "(no way to find holes, no probe file possible, image not readable or empty, output not writable). Non-trivial: creation fails, or the image was written to and at least two different channels were used.",
    [Facet("pure", strategy, run, quick=900, thorough=8000, shards=6, noise="v"),
     Facet("failing", failing_st, run_failing, quick=500, thorough=5000, shards=2, noise="v")],
    ["access times are not considered part of the image"],
)
