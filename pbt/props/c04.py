"""Date serials."""
import datetime as dt

from .common import *

RULE = "Columns of date serials (doubles and RK numbers) under date formats; oracle: exact rational arithmetic on the stored number."
DAY = o.DAY


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["xlsx", "xlsb"]))
    fid = draw(st.sampled_from(gen.T_IDS + [164]))
    spec = {"fmt": fmt, "sst": ["a"], "xfs": [0, fid], "fmts": {"164": "yyyy-mm-dd hh:mm:ss"} if fid == 164 else {}, "cls": {"164": "T"} if fid == 164 else {}}
    rows = []
    for v in draw(st.lists(st.one_of(gen.serials, st.integers(1, 2_958_465).map(lambda i: ("rk", i << 2 | 2)),
                                     st.integers(100, 295_846_500).map(lambda i: ("rk", (i << 2 | 3))),
                                     gen.serials.map(lambda f: ("rk", o_bits(f)))), min_size=1, max_size=30)):  # fmt: skip
        if isinstance(v, tuple):
            val = wb.rk_value(v[1])
            rows.append({"c": 0, "k": "n", "v": val, "rk": v[1], "s": 1} if 0 <= val < 2958466 else {"c": 0, "k": "n", "v": 1.0, "s": 1})
        else:
            rows.append({"c": 0, "k": "n", "v": v, "s": 1, **({"f": 1} if draw(st.integers(0, 9)) == 0 else {})})
    spec["sheets"] = [{"name": "S", "rows": [{"cells": [c]} for c in rows]}]
    return case_of(spec)


def o_bits(f):
    import struct

    return struct.unpack("<Q", struct.pack("<d", f))[0] >> 32 & 0xFFFFFFFC


def read_serials(fmt, serials):
    spec = {"fmt": fmt, "sst": ["a"], "xfs": [0, 22], "sheets": [{"name": "S", "rows": [{"cells": [{"c": 0, "k": "n", "v": s, "s": 1}]} for s in serials]}]}
    t = rc.do_read(wb.build(spec), 0, {})
    rc.validate(t)
    if t.num_columns != 1 or str(t.column(0).type) != "timestamp[ms]":
        raise Violation(f"a column of dates is read as {t.schema!s}")
    return o.pylist(t.column(0))


@st.composite
def moments(draw):
    fmt = draw(st.sampled_from(["xlsx", "xlsb"]))
    ds = draw(st.lists(st.tuples(gen.days, gen.ms_of_day), min_size=1, max_size=20))
    return {"fmt": fmt, "at": [list(d) for d in ds]}


def exact_ms(day, ms):
    """Calendar arithmetic, independent of serial arithmetic: day number -> date."""
    if day == 0:
        return ms
    d = dt.date(1899, 12, 31) + dt.timedelta(days=day) if day < 60 else dt.date(1899, 12, 30) + dt.timedelta(days=day)
    return o.to_ms(dt.datetime(d.year, d.month, d.day)) + ms


def check_moments(case):
    got = read_serials(case["fmt"], [o.serial_of(d, m) for d, m in case["at"]])
    for (d, m), g in zip(case["at"], got):
        if d == 60:
            continue
        if g != exact_ms(d, m):
            raise Violation(f"serial of day {d}, {m} ms is read as {g}, not {exact_ms(d, m)}")
    return case["fmt"], len(case["at"]) > 1


def blocks(tier):
    """Whole days and whole seconds, in blocks."""
    step = 8192
    hi = 2_958_465
    starts = list(range(1, hi, step))
    if tier == "quick":
        starts = starts[:14] + starts[14::40]
    for i, s in enumerate(starts):
        yield {"fmt": "xlsb" if i % 2 else "xlsx", "days": [s, min(s + step, hi + 1)], "ms": 0}
    secs = range(0, 86400, 4320)
    for i, s in enumerate(secs):
        yield {"fmt": "xlsb" if i % 2 else "xlsx", "secs": [s, s + 4320], "day": [0, 1, 59, 61, 25568, 25569, 44197, 2958465][i % 8]}


def check_block(case):
    if "days" in case:
        at = [(d, case["ms"]) for d in range(*case["days"])]
    else:
        at = [(case["day"], s * 1000) for s in range(*case["secs"])]
    got = read_serials(case["fmt"], [o.serial_of(d, m) for d, m in at])
    if len(got) != len(at):
        raise Violation(f"{len(got)} rows instead of {len(at)}")
    for (d, m), g in zip(at, got):
        if d != 60 and g != exact_ms(d, m):
            raise Violation(f"serial of day {d}, {m} ms is read as {g}, not {exact_ms(d, m)}")
    return "days" if "days" in case else "seconds", True


SUBS = [
    read_sub("serials", cases, 1200, rule="non-trivial: a table of at least two values"),
    Sub("moments", check_moments, moments, 1200, rule="serial computed from a date and time, which must come back exactly; non-trivial: two or more"),
    Sub("calendar", check_block, enum=blocks, rule="blocks of consecutive days (quick: 1900-2208 and samples; thorough: all days to 9999) and every second of a day; each block non-trivial"),
]
