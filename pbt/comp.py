"""Compressed and archived forms of data, made without the code under test."""

import bz2
import gzip
import io
import lzma
import os
import shutil
import subprocess
import tarfile
import zipfile

from pbt.core import Skip

# extension -> (archiver, compressor)
EXTS = {
    "gz": (None, "gz"), "gzip": (None, "gz"), "bz2": (None, "bz2"), "xz": (None, "xz"), "lzo": (None, "lzo"), "lz4": (None, "lz4"),
    "zst": (None, "zst"), "zip": ("zip", None),
    "tar.gz": ("tar", "gz"), "tgz": ("tar", "gz"),
    "tar.bz2": ("tar", "bz2"), "tbz": ("tar", "bz2"), "tbz2": ("tar", "bz2"), "tb2": ("tar", "bz2"),
    "tar.xz": ("tar", "xz"), "txz": ("tar", "xz"),
    "tar.lzo": ("tar", "lzo"), "tzo": ("tar", "lzo"),
    "tar.lz4": ("tar", "lz4"), "tlz4": ("tar", "lz4"),
    "tar.zst": ("tar", "zst"), "tzst": ("tar", "zst"),
}
PLAIN = ("", "img", "raw", "iso", "bin", "gz.img", "tar", "GZ", "xz.part", "zip2")


def _run(cmd, data):
    if not shutil.which(cmd[0]):
        raise Skip("no %s here" % cmd[0])
    proc = subprocess.run(cmd, input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True)
    return proc.stdout


def compress(kind, data, level=1, streams=1):
    """'streams': the data are split and each part is compressed on its own."""
    if kind is None:
        return data
    if streams > 1 and len(data) >= streams:
        step = len(data) // streams
        cuts = [i * step for i in range(streams)] + [len(data)]
        return b"".join(compress(kind, data[a:b], level) for a, b in zip(cuts, cuts[1:]))
    if kind == "gz":
        return gzip.compress(data, level, mtime=0)
    if kind == "bz2":
        return bz2.compress(data, max(level, 1))
    if kind == "xz":
        return lzma.compress(data, preset=min(level, 3))
    if kind == "lzo":
        return _run(["lzop", "-c", "-1" if level < 4 else "-7"], data)
    if kind == "lz4":
        return _run(["lz4", "-c", "-1"] + (["-BD"] if level > 3 else []), data)
    if kind == "zst":
        return _run(["zstd", "-q", "-c", "-%d" % min(level, 5)], data)
    raise KeyError(kind)


def archive(kind, data, member, fmt="gnu", dirs=()):
    """'member' is the path of the only regular file in the archive."""
    if kind is None:
        return data
    out = io.BytesIO()
    if kind == "tar":
        with tarfile.open(fileobj=out, mode="w", format={"gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT, "ustar": tarfile.USTAR_FORMAT}[fmt]) as t:
            for name in dirs:
                info = tarfile.TarInfo(name)
                info.type = tarfile.DIRTYPE
                info.mode = 0o755
                t.addfile(info)
            info = tarfile.TarInfo(member)
            info.size = len(data)
            info.mode = 0o644
            t.addfile(info, io.BytesIO(data))
        return out.getvalue()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED if fmt != "ustar" else zipfile.ZIP_STORED, compresslevel=1) as z:
        z.writestr(os.path.basename(member), data)
    return out.getvalue()


def pack(ext, data, d, spec=None):
    """The file contents for a name with extension 'ext'."""
    spec = spec or {}
    arch, kind = EXTS[ext]
    member = os.path.join(d, "member.img").lstrip("/")
    if spec.get("abs"):
        member = "/" + member
    dirs = [os.path.dirname(member)] if spec.get("dirs") else []
    return compress(kind, archive(arch, data, member, spec.get("fmt", "gnu"), dirs), spec.get("level", 1), spec.get("streams", 1) if arch is None else 1)
