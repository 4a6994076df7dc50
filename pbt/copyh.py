"""Helpers around the copier: build inputs, run a copy, compare the outcome."""

import builtins
import io
import json
import os

from hypothesis import strategies as st

from pbt import gen, util
from pbt.core import Violation
from pbt.util import MemImage, Recorder, build_bmap, check


class Outcome(object):
    def __init__(self, kind, exc=None, writer=None):
        self.kind = kind  # "ok", "error" (the package's own), "crash" (any other exception)
        self.exc = exc
        self.writer = writer

    def __repr__(self):
        return "%s%s" % (self.kind, " %s: %s" % (type(self.exc).__name__, self.exc) if self.exc else "")


def do_copy(image, dest, bmap=None, size=None, sync=True, verify=True, bdev=False, before=None, stage=None):
    """Run a copy; 'stage' (a list) receives 'constructed' and 'copied'."""
    from bmaptools import BmapCopy, TransRead

    cls = BmapCopy.BmapBdevCopy if bdev else BmapCopy.BmapCopy
    writer = None
    try:
        writer = cls(image, dest, bmap, size)
        if stage is not None:
            stage.append("constructed")
        if before:
            before(writer)
        writer.copy(sync, verify)
        if stage is not None:
            stage.append("copied")
        return Outcome("ok", None, writer)
    except (BmapCopy.Error, TransRead.Error) as exc:
        return Outcome("error", exc, writer)
    except Violation:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return Outcome("crash", exc, writer)
    finally:
        if writer is not None:
            w = writer

            def cleanup():
                util.drain(w)

            util.at_case_end(cleanup)


class NamedBytes(io.BytesIO):
    """An in-memory file with a name."""

    name = "in-memory"


def bmap_file(d, data, name="image.bmap"):
    path = os.path.join(d, name)
    with open(path, "wb") as f:
        f.write(data)
    f = open(path, "rb")
    util.at_case_end(f.close)
    return f


def expected(old, image, size, bs, ranges):
    """The destination after copying 'ranges' of 'image' over 'old'."""
    buf = bytearray(old[:size]) + bytearray(max(0, size - len(old)))
    for a, b in ranges:
        s, e = a * bs, min((b + 1) * bs, size)
        buf[s:e] = image[s:e]
    return bytes(buf)


def first_diff(a, b):
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n
    lo, hi = 0, n
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if a[lo:mid] == b[lo:mid]:
            lo = mid
        else:
            hi = mid
    return lo


def check_same(got, want, what, bs):
    if got != want:
        off = first_diff(got, want)
        raise Violation("%s: %d bytes, should be %d; first difference at offset %d (block %d, offset %d in it)" % (
            what, len(got), len(want), off, off // bs, off % bs))


def check_inside(rec, size, bs, ranges):
    """All recorded writes lie inside the listed blocks (and the image)."""
    allowed = []
    for a, b in sorted(tuple(r) for r in ranges):
        s, e = a * bs, min((b + 1) * bs, size)
        if allowed and s <= allowed[-1][1]:
            allowed[-1] = (allowed[-1][0], max(allowed[-1][1], e))
        else:
            allowed.append((s, e))
    for a, b in rec.written():
        if not any(s <= a and b <= e for s, e in allowed):
            raise Violation("bytes %d..%d were written although the listed blocks are at %r" % (a, b, allowed[:10]))


image_content = st.fixed_dictionaries({"kind": gen.weighted((4, st.just("rand")), (2, st.sampled_from(["zero", "ff", "low", "text", "rep", "rep"]))), "seed": gen.ints(0, 50)})


def run_recorded_cli(args, d, dst, dev=None, stdin=None, env=None, faults=None, setup=None, pause=None):
    """
    The command line with its destination recorded: 'dst' is the absolute path
    of a regular destination or 'dev' a FakeBdev. -> (CliResult, report)
    """
    report_path = os.path.join(d, "cli-report.json")
    rec = dev.rec if dev else Recorder()
    if faults:
        rec.faults.update(faults)

    def child_setup():
        util.patch_os()
        if setup:
            setup()
        if dev:
            dev.__enter__()
            rec.snap = lambda: snapshot(rec, dev.path)
            return
        real = builtins.open

        def opener(file, mode="r", *a, **kw):
            if isinstance(file, str) and "b" in mode and ("w" in mode or "+" in mode or "a" in mode) and os.path.abspath(file) == dst:
                rec.snap = lambda: snapshot(rec, dst)
                return util.open_dest(file, rec, mode)
            return real(file, mode, *a, **kw)

        builtins.open = opener

    def child_finish():
        if dev:
            dev.__exit__()
        with io.FileIO(report_path, "w") as f:
            snap = getattr(rec, "last_snap", None)
            f.write(json.dumps({
                "events": rec.events[-4000:], "triggered": rec.triggered, "max_unsynced": rec.max_unsynced, "total": rec.total_written,
                "written": rec.written(), "snap": snap.hex() if snap is not None else None, "opens": dev.opens if dev else None,
                "sys_log": dev.sys_log if dev else None}).encode())

    res = util.run_cli(args, d, stdin=stdin, env=env, child_setup=child_setup, child_finish=child_finish)
    report = None
    if os.path.exists(report_path):
        with open(report_path) as f:
            report = json.load(f)
    return res, report


def snapshot(rec, path):
    """What would be on the medium after a power cut now: taken at synchronizations."""
    with io.FileIO(path) as f:
        rec.last_snap = f.readall()
