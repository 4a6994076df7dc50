"""H01: sizes and times shown to the user are accurate."""

import math
import re
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Facet, Info, Property
from pbt.util import check

UNITS = ["KiB", "MiB", "GiB", "TiB", "PiB", "EiB"]


def run_size(spec):
    from bmaptools import BmapHelpers

    size = spec["size"]
    if spec["float"]:
        size = float(size)
    text = BmapHelpers.human_size(size)
    exact = Fraction(size)
    m = re.match(r"^(\d+) bytes?$", text)
    if m:
        check(exact < 1024, "%r is shown as %r", size, text)
        check(abs(exact - int(m.group(1))) < 1, "%r is shown as %r", size, text)
        check((text == "1 byte") == (m.group(1) == "1") or spec["float"], "%r", text)
        return Info(True, "bytes")
    m = re.match(r"^(\d+\.\d) ([KMGTPE]iB)$", text)
    check(m, "%r is shown as %r", size, text)
    i = UNITS.index(m.group(2))
    unit = 1024 ** (i + 1)
    shown = Fraction(m.group(1)) * unit
    slack = Fraction(unit, 20) + exact / 2 ** 50
    check(abs(shown - exact) <= slack, "%r is shown as %r, which is off by %.3f %s", size, text, float(abs(shown - exact) / unit), m.group(2))
    low = 512 if i == 0 else unit
    check(low <= exact * (1 + Fraction(1, 2 ** 50)), "%r is shown as %r although the unit is too large", size, text)
    check(i == 5 or exact < unit * 1024, "%r is shown as %r although a larger unit fits", size, text)
    return Info(True, m.group(2), "close to a boundary" if min(abs(exact - 1024 ** k) for k in range(1, 7)) <= 2 else "elsewhere")


def size_st():
    near = st.builds(lambda k, d: max(0, 1024 ** k + d), gen.ints(0, 7), gen.ints(-3, 3))
    frac = st.builds(lambda k, n, d: max(0, 1024 ** k * n // 20 + d), gen.ints(1, 6), gen.ints(1, 20480), gen.ints(-2, 2))
    return st.fixed_dictionaries({
        "size": st.one_of(gen.ints(0, 2048), near, frac, gen.ints(0, 2 ** 70), st.builds(lambda b, r: 2 ** b + r, gen.ints(0, 69), gen.ints(0, 9)), st.sampled_from([511, 512, 513])),
        "float": st.booleans()})


def run_time(spec):
    from bmaptools import BmapHelpers

    seconds = spec["whole"] if spec["int"] else spec["whole"] + spec["frac"]
    text = BmapHelpers.human_time(seconds)
    m = re.match(r"^(?:(\d+)h )?(?:(\d+)m )?(\d+\.\d)s$", text)
    check(m, "%r s are shown as %r", seconds, text)
    h, mi, s = int(m.group(1) or 0), int(m.group(2) or 0), Fraction(m.group(3))
    total = h * 3600 + mi * 60 + s
    check(abs(total - Fraction(seconds)) <= Fraction(1, 10), "%r s are shown as %r", seconds, text)
    check(mi < 60 and s <= 60, "%r s are shown as %r", seconds, text)
    return Info(True, "hours" if h else "minutes" if mi else "seconds", "about to carry" if s >= Fraction(599, 10) else "elsewhere")


def time_st():
    near = st.builds(lambda k, u, d: max(0, k * u + d), gen.ints(0, 100), st.sampled_from([60, 3600]), gen.ints(-1, 1))
    return st.fixed_dictionaries({
        "whole": st.one_of(gen.ints(0, 200), near, gen.ints(0, 30 * 86400)), "int": gen.weighted((3, st.just(False)), (1, st.just(True))),
        "frac": st.one_of(st.sampled_from([0.0, 0.04, 0.05, 0.94, 0.95, 0.96, 0.999999]), st.floats(0, 1, exclude_max=True, allow_nan=False))})


PROPERTY = Property(
    "H01",
    "Sizes from 0 to 2^70, concentrated around powers of 1024, twentieths of units and the switch to KiB, as integers and floats; durations from 0 to 30 days, concentrated around full "
    "minutes and hours, against exact rational arithmetic. Every case is non-trivial.",
    [Facet("size", size_st, run_size, quick=8000, thorough=150000, shards=2),
     Facet("time", time_st, run_time, quick=8000, thorough=150000, shards=2)],
)
