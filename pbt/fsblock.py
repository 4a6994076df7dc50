"""
File systems with other block sizes than the ones at hand.

The tool asks for the block size with an ioctl, and uses the preferred I/O size of stat() where there is no such ioctl (as on NFS, where that size may be much
larger than the granularity of holes).
"""

import contextlib
import errno
import fcntl
import os
import struct
import sys

FIGETBSZ = 2


@contextlib.contextmanager
def fs_block(size, how="ioctl"):
    """Pretend that the block size is 'size'. 'how': answered by the "ioctl", or by "stat" only ("zero": the ioctl says 0)."""
    if not size:
        yield
        return
    # (before anything is changed, modules may import the call by name)
    from bmaptools import BmapCreate  # noqa: F401  pylint: disable=unused-import,import-outside-toplevel

    real = fcntl.ioctl
    stats = {name: getattr(os, name) for name in ("stat", "fstat", "lstat")}

    def ioctl(fd, request, *args):
        if request & 0xFFFFFFFF != FIGETBSZ:
            return real(fd, request, *args)
        if how == "stat":
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        answer = struct.pack("I", size if how == "ioctl" else 0)
        if args and isinstance(args[0], bytes):
            return answer
        if args and not isinstance(args[0], int):
            memoryview(args[0]).cast("B")[:4] = answer
            return 0
        return real(fd, request, *args)

    def wrap(call):
        def fake(*args, **kwargs):
            st = call(*args, **kwargs)
            extra = {k: getattr(st, k) for k in dir(st) if k.startswith("st_")}
            extra["st_blksize"] = size
            return os.stat_result(tuple(st)[:10], extra)

        return fake

    changed = []

    def patch(obj, name, new):
        changed.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    patch(fcntl, "ioctl", ioctl)
    for module in [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "bmaptools" and m]:
        for name, value in list(vars(module).items()):
            if value is real:
                patch(module, name, ioctl)
    if how != "ioctl":
        for name, call in stats.items():
            patch(os, name, wrap(call))
    try:
        yield
    finally:
        for obj, name, old in reversed(changed):
            setattr(obj, name, old)
