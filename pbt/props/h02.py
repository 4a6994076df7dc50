"""H02: images on file systems that hide holes wrongly are refused."""

import os
import shutil

from hypothesis import strategies as st

from pbt import gen, util
from pbt.core import Facet, Info, Property
from pbt.util import check, fast_pattern

# A stand-in for df: knows one file, whatever the name used for it
DF = """#!/bin/sh
for last; do :; done
[ "$(readlink -f -- "$last"; echo x)" = "$(cat '%(d)s/real'; echo x)" ] || { echo "df: $last: No such file or directory" >&2; exit 1; }
cat '%(d)s/stderr' >&2
cat '%(d)s/stdout'
exit %(code)d
"""


def report(spec):
    fields = [str(n) for n in spec["numbers"]]
    used = "%d%%" % spec["percent"]
    if spec["dashes"]:
        fields, used = ["-", "-", "-"], "-"
    name, ftype, mount = spec["device"], spec["type"], spec["mount"]
    wide = max(len(name), 14)
    if spec["busybox"]:
        head = "Filesystem           Type       1K-blocks      Used Available Use% Mounted on\n"
        if len(name) > 20:
            name = name[:20].replace(" ", "_")
        line = "%-20s %-10s %9s %9s %9s %4s %s\n" % tuple([name, ftype] + fields + [used, mount])
    else:
        head = "%s Type %9s %9s %9s Use%% Mounted on\n" % ("Filesystem".ljust(wide), "1K-blocks", "Used", "Available")
        line = "%s %-4s %9s %9s %9s %4s %s\n" % (name.ljust(wide), ftype, fields[0], fields[1], fields[2], used, mount)
    return head + line


def run(spec):
    d = util.scratch("ext")
    sub = os.path.join(d, "images")
    os.mkdir(sub)
    real = os.path.join(sub, spec["name"])
    data = fast_pattern(1, 9000)
    with open(real, "wb") as f:
        f.seek(3 * 4096)
        f.write(data)
        f.flush()
        os.fsync(f.fileno())
    path = real
    if spec["link"] == "symlink":
        os.symlink(real, os.path.join(d, "link"))
        path = os.path.join(d, "link")
    elif spec["link"] == "chain":
        os.symlink(os.path.join("images", spec["name"]), os.path.join(d, "l1"))
        os.symlink("l1", os.path.join(d, "link"))
        path = os.path.join(d, "link")
    elif spec["link"] == "dirlink":
        os.symlink("images", os.path.join(d, "dirlink"))
        path = os.path.join(d, "dirlink", spec["name"])
    bindir = os.path.join(d, "bin")
    os.mkdir(bindir)
    full = report(spec)
    out = {"ok": full, "empty": "", "header": full.split("\n")[0] + "\n", "blank": full.split("\n")[0] + "\n\n"}[spec["df"] if spec["df"] in ("empty", "header", "blank") else "ok"]
    with open(os.path.join(bindir, "real"), "w") as f:
        f.write(real + "\n")
    with open(os.path.join(bindir, "stdout"), "wb") as f:
        f.write(out.encode("utf-8", "surrogateescape"))
    with open(os.path.join(bindir, "stderr"), "w") as f:
        f.write("" if spec["df"] == "ok" else "df: something is wrong\n")
    if spec["df"] != "missing":
        script = os.path.join(bindir, "df")
        with open(script, "w") as f:
            f.write(DF % {"d": bindir, "code": 0 if spec["df"] in ("ok", "warn") else 1})
        os.chmod(script, 0o755)
        for tool in ("cat", "readlink"):
            os.symlink(shutil.which(tool), os.path.join(bindir, tool))
    param = os.path.join(d, "param")
    value = spec["param"]
    if value == "dir":
        os.mkdir(param)
    elif value == "dangling":
        os.symlink("nothing", param)
    elif value != "absent":
        with open(param, "w") as f:
            f.write(value)
    zfs = spec["type"].lower() == "zfs"
    known = spec["df"] in ("ok", "warn")
    good = known and (not zfs or value.strip().split("\n")[0].strip() == "1")
    from bmaptools import BmapCreate, BmapHelpers, Filemap

    def child_setup():
        BmapHelpers.ZFS_COMPAT_PARAM_PATH = param

    outfile = os.path.join(d, "out")
    if spec["how"] == "cli":
        res = util.run_cli(["create", "-o", outfile, "--", path], d, env={"PATH": bindir}, child_setup=child_setup)
        if good:
            check(res.code == 0, "refused on %r (%r): %r", spec["type"], value, res)
        else:
            check(res.code > 0 and res.err.strip(), "accepted on %r (%r, df %s): %r", spec["type"], value, spec["df"], res)
    else:
        saved = (os.environ["PATH"], BmapHelpers.ZFS_COMPAT_PARAM_PATH, os.getcwd())
        os.environ["PATH"] = bindir
        BmapHelpers.ZFS_COMPAT_PARAM_PATH = param
        problem = None
        try:
            os.chdir(d)
            if spec["rel"]:
                path = os.path.relpath(path)
            try:
                if spec["how"] == "create":
                    BmapCreate.BmapCreate(path, outfile, "sha256").generate()
                elif spec["how"] == "create obj":
                    with open(path, "rb") as f:
                        BmapCreate.BmapCreate(f, outfile, "sha256").generate()
                else:
                    ranges = list(Filemap.filemap(path).get_mapped_ranges(0, 6))
                    check(ranges == [(3, 5)], "odd ranges %r", ranges)
            except util.Violation:
                raise
            except Exception as exc:  # pylint: disable=broad-except
                problem = exc
        finally:
            os.chdir(saved[2])
            os.environ["PATH"] = saved[0]
            BmapHelpers.ZFS_COMPAT_PARAM_PATH = saved[1]
        if good:
            check(problem is None, "refused on %r (%r): %r", spec["type"], value, problem)
        else:
            check(problem is not None, "accepted on %r (%r, df %s)", spec["type"], value, spec["df"])
    if good and spec["how"] != "filemap":
        with open(outfile, "rb") as f:
            check(util.Bmap(f.read()).ranges == [(3, 5)], "the bmap is wrong")
    return Info(zfs or not known or spec["link"] != "no", "zfs" if zfs else "other", "df " + spec["df"], "accepted" if good else "refused", "name with space" if " " in spec["device"] else "simple name", "by " + spec["how"])


def strategy():
    device = gen.weighted((3, st.sampled_from(["rpool/USERDATA/foo_5ucog2", "/dev/sda1", "tmpfs", "tank", "server:/export/zfs"])),
                          (1, st.sampled_from(["my pool/data", "//server/zfs share", "zfs", "a zfs b", "pöl/dä", "x" * 90, "tank/ext4 old", "\udcff\udcfe"])))
    return st.fixed_dictionaries({
        "type": gen.weighted((4, st.sampled_from(["zfs", "zfs", "zfs", "ZFS", "Zfs"])), (3, st.sampled_from(["ext4", "tmpfs", "btrfs", "nfs4", "xfs", "fuse.zfs-fuse", "zfsx", "xzfs", "zf", "overlay", "-", "fuseblk"]))),
        "device": device, "mount": st.sampled_from(["/", "/home/foo", "/mnt/zfs", "/mnt/with space", "/mnt/a zfs 1 2 3 4% b", "/mnt/zfs 5"]),
        "numbers": st.tuples(gen.ints(0, 10 ** 12), gen.ints(0, 10 ** 12), gen.ints(-10 ** 6, 10 ** 12)).map(list), "percent": gen.ints(0, 100), "dashes": gen.weighted((6, st.just(False)), (1, st.just(True))),
        "busybox": gen.weighted((5, st.just(False)), (1, st.just(True))), "df": gen.weighted((10, st.just("ok")), (3, st.sampled_from(["warn", "empty", "header", "blank", "missing"]))),
        "param": gen.weighted((3, st.sampled_from(["1\n", "1", " 1 \n"])), (4, st.sampled_from(["absent", "dir", "dangling", "0\n", "0", "2\n", "-1\n", "", "\n", "x\n", "1x\n", "0x1\n", "10\n", "11\n", "1 1\n", "true\n"]))),
        "name": st.sampled_from(["image", "-x.img", "with space", "zfs", "ü.img", "a\tb", "$HOME"]), "link": gen.weighted((3, st.just("no")), (3, st.sampled_from(["symlink", "chain", "dirlink"]))),
        "how": st.sampled_from(["create", "create obj", "filemap", "cli"]), "rel": st.booleans()})


PROPERTY = Property(
    "H02",
    "Reports of the df command (through a stand-in in PATH) for file-system types equal or similar to ZFS in any case, with device and mount point names holding spaces, type names and "
    "bytes that are no text, in the layouts of two df implementations, empty and damaged reports, a failing or missing df x contents of the ZFS parameter file x names of and links to "
    "the image x library and command line. Non-trivial: ZFS, a failing df, or a linked image.",
    [Facet("zfs", strategy, run, quick=2000, thorough=15000, shards=6, noise="v")],
    assumptions=["the parameter file counts as set if its first line is the number 1, which is what the kernel writes"],
)
