"""Date texts."""
import datetime as dt

from .common import *

RULE = "A date cell and texts made from known instants in default or caller-given formats; oracle: the instant the text was made from."
NEAR_MISS = ["2021-13-01", "32.01.2021", "01.13.2021", "2021/01/01", "01.02.2021 x", "x 01.02.2021", "12:60", "25:00", "24:00:01", "noon", "2021-01-01T", "2021-01-01Z",
             "01.02.2021 25:00", "2021.01.01", "01-02", "12", "2021-01", "1.2", "01.02.2021T10", "2021-01-01 10:00:00.500", "2021-01-01 10:00 AM", "10:00 PM"]  # fmt: skip

# (format, renderer, what it keeps)
CUSTOM = [
    ("%Y/%m/%d", lambda d: f"{d.year:04}/{d.month:02}/{d.day:02}", "d"),
    ("%m/%d/%Y", lambda d: f"{d.month:02}/{d.day:02}/{d.year:04}", "d"),
    ("%Y%m%d", lambda d: f"{d.year:04}{d.month:02}{d.day:02}", "d"),
    ("%d %m %Y", lambda d: f"{d.day:02} {d.month:02} {d.year:04}", "d"),
    ("%Y-%m-%d %H:%M", lambda d: f"{d.year:04}-{d.month:02}-{d.day:02} {d.hour:02}:{d.minute:02}", "m"),
    ("%d.%m.%Y %H:%M:%S", lambda d: f"{d.day:02}.{d.month:02}.{d.year:04} {d.hour:02}:{d.minute:02}:{d.second:02}", "s"),
    ("on %Y-%m-%d", lambda d: f"on {d.year:04}-{d.month:02}-{d.day:02}", "d"),
    ("%Y-%m-%dT%H:%M:%S", lambda d: f"{d.year:04}-{d.month:02}-{d.day:02}T{d.hour:02}:{d.minute:02}:{d.second:02}", "s"),
    ("%H:%M", lambda d: f"{d.hour:02}:{d.minute:02}", "T"),
    ("%H-%M-%S", lambda d: f"{d.hour:02}-{d.minute:02}-{d.second:02}", "t"),
    ("%d/%m/%y", lambda d: f"{d.day:02}/{d.month:02}/{d.year % 100:02}", "y"),
]
# texts with white space around (texts of XLSX lose theirs)
SPACED = [
    ("%d.%m.%Y x ", lambda d: f"{d.day:02}.{d.month:02}.{d.year:04} x ", "d"),
    (" %F", lambda d: f" {d.year:04}-{d.month:02}-{d.day:02}", "d"),
    ("%T  ", lambda d: f"{d.hour:02}:{d.minute:02}:{d.second:02}  ", "t"),
]
MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
# further directives, one format at a time
FURTHER = [
    ("%F", lambda d: d.date().isoformat().zfill(10), "d"),
    ("%F %T", lambda d: f"{d.year:04}-{d.month:02}-{d.day:02} {d.hour:02}:{d.minute:02}:{d.second:02}", "s"),
    ("%R, %F", lambda d: f"{d.hour:02}:{d.minute:02}, {d.year:04}-{d.month:02}-{d.day:02}", "m"),
    ("%D", lambda d: f"{d.month:02}/{d.day:02}/{d.year % 100:02}", "y"),
    ("%d %b %Y", lambda d: f"{d.day:02} {MONTHS[d.month - 1]} {d.year:04}", "d"),
    ("%b %e, %Y", lambda d: f"{MONTHS[d.month - 1]} {d.day}, {d.year:04}", "d"),
    ("%e %h %Y %R", lambda d: f"{d.day} {MONTHS[d.month - 1]} {d.year:04} {d.hour:02}:{d.minute:02}", "m"),
    ("%Y-%j", lambda d: f"{d.year:04}-{d.timetuple().tm_yday:03}", "d"),
    ("%I:%M %p", lambda d: f"{d.hour % 12 or 12:02}:{d.minute:02} {'AP'[d.hour // 12]}M", "T"),
    ("%Y-%m-%d %I:%M:%S %p", lambda d: f"{d.year:04}-{d.month:02}-{d.day:02} {d.hour % 12 or 12:02}:{d.minute:02}:{d.second:02} {'AP'[d.hour // 12]}M", "s"),
    ("%T", lambda d: f"{d.hour:02}:{d.minute:02}:{d.second:02}", "t"),
    ("d%d m%m y%Y", lambda d: f"d{d.day:02} m{d.month:02} y{d.year:04}", "d"),
    ("%Hh%M", lambda d: f"{d.hour:02}h{d.minute:02}", "T"),
    ("%%%H:%M", lambda d: f"%{d.hour:02}:{d.minute:02}", "T"),
]
KEEP = {"d": dict(hour=0, minute=0, second=0), "m": dict(second=0), "s": {}, "y": dict(hour=0, minute=0, second=0),
        "T": dict(year=1970, month=1, day=1, second=0), "t": dict(year=1970, month=1, day=1)}  # fmt: skip


@st.composite
def custom_text(draw, f):
    d = draw(gen.moments).replace(microsecond=0)
    if f[2] == "y" and not 1969 <= d.year <= 2068:
        d = d.replace(year=1969 + d.year % 100, day=min(d.day, 28))
    return f[1](d), o.to_ms(d.replace(**KEEP[f[2]]))


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["xlsx", "xlsb"]))
    kw = {"conflict_resolve": draw(st.sampled_from(["temporal", "temporal", "all"]))}
    form = draw(st.integers(0, 4))
    dts, misses = {}, []
    if form == 0:
        fs = draw(st.lists(st.sampled_from(range(len(CUSTOM))), min_size=1, max_size=3, unique=True))
        # formats whose texts the other ones also read are not combined
        if len(fs) > 1 and {0, 1} & set(fs) and 10 in fs or {0, 1, 10} <= set(fs) or {0, 1} <= set(fs) or {0, 10} <= set(fs) or {1, 10} <= set(fs):
            fs = fs[:1]
        fs = [CUSTOM[i] for i in fs]
        if draw(st.integers(0, 2)) == 0:
            fs = [draw(st.sampled_from(FURTHER + SPACED if fmt == "xlsb" else FURTHER))]
        for _ in range(draw(st.integers(1, 6))):
            t, ms = draw(custom_text(draw(st.sampled_from(fs))))
            dts[t] = ms
        kw["datetime_formats"] = fs[0][0] if len(fs) == 1 and draw(st.booleans()) else [f[0] for f in fs]
        misses = ["2021.01.01", "noon", "x", "01_02_2021"]
        if fmt == "xlsb":  # texts of XLSX lose their white space
            # (white space at the end of a format stands for any amount of it)
            misses += [t + draw(st.sampled_from([" ", "\n", "  "])) for t in dts if not t[-1].isspace()]
    elif form == 4:
        # texts that several formats read: the first one counts
        pair, short = draw(st.sampled_from([((("%d/%m/%Y", 0), ("%m/%d/%Y", 1)), 0), ((("%d/%m/%y", 0), ("%D", 1)), 1), ((("%d/%m/%y", 0), ("%m/%d/%y", 1)), 1), ((("%e/%m/%Y", 0), ("%m/%d/%Y", 1)), 0)]))
        fs = draw(st.permutations(pair))
        for _ in range(draw(st.integers(1, 6))):
            a, b = draw(st.sampled_from([(1, 2), (2, 1), (3, 12), (12, 3), (28, 4), (4, 28), (13, 12), (12, 13), (7, 7)]))
            y = draw(st.integers(1969, 2068) if short else st.integers(1900, 2100))
            day, month = next((x, z) for x, z in ((b, a) if f[1] else (a, b) for f in fs) if z <= 12)
            dts[f"{a:02}/{b:02}/{y % 100:02}" if short else f"{a:02}/{b:02}/{y}"] = o.to_ms(dt.datetime(y, month, day))
        kw["datetime_formats"] = [f[0] for f in fs]
    else:
        for _ in range(draw(st.integers(1, 8))):
            t, ms = draw(gen.date_texts())
            dts[t] = ms
        misses = NEAR_MISS
        if fmt == "xlsb":  # texts of XLSX lose their white space
            misses = [*misses, *["01.02.2021 ", "12:30 ", "2021-01-01\n", "2021-01-01 10:00 "] * 3]
    texts = sorted(dts)
    if misses and draw(st.integers(0, 3)) == 0:
        texts.insert(draw(st.integers(0, len(texts))), draw(st.sampled_from(misses)))
    sst, cells = ["a"], [{"k": "n", "v": draw(gen.serials), "s": 1}]
    for t in texts:
        k = draw(st.sampled_from("sti"))
        if k == "s":
            sst.append(t)
            cells.append({"k": "s", "v": len(sst) - 1})
        else:
            cells.append({"k": k, "v": t})
        if draw(st.integers(0, 5)) == 0:
            cells.append(None)
    cells = draw(st.permutations(cells)) if draw(st.booleans()) else cells
    spec = {"fmt": fmt, "sst": sst, "xfs": [0, 22], "dt": dts}
    spec["sheets"] = [{"name": "S", "rows": [{"cells": [{"c": 0, "k": "i", "v": "r"}] + ([{"c": 1, **c}] if c else [])} for c in cells]}]
    return case_of(spec, kw)


def days(tier):
    """Every day 1970 +- and every 7th / each day to 2200 in each default format, many per sheet."""
    step = 1 if tier == "thorough" else 11
    d0 = dt.date(1900, 1, 1)
    total = (dt.date(2200, 12, 31) - d0).days
    block = 1100 * step
    for f in range(4):
        for lo in range(0, total, block):
            yield {"f": f, "lo": lo, "hi": min(lo + block, total), "step": step, "fmt": "xlsb" if (f + lo // block) % 2 else "xlsx", "time": (lo // block) % 3}


def check_days(case):
    d0 = dt.datetime(1900, 1, 1)
    rows, dts = [{"cells": [{"c": 0, "k": "n", "v": 44197.0, "s": 1}]}], {}
    for i in range(case["lo"], case["hi"], case["step"]):
        d = d0 + dt.timedelta(days=i)
        t = gen.DEFAULT_DATE_FMTS[case["f"]](d)
        if case["time"] == 1:
            d = d.replace(hour=i % 24, minute=i % 60)
            t += f" {d.hour:02}:{d.minute:02}"
        elif case["time"] == 2:
            d = d.replace(hour=23 - i % 24, minute=59 - i % 60, second=i % 59)
            t += f"T{d.hour:02}:{d.minute:02}:{d.second:02}"
        dts[t] = o.to_ms(d)
        rows.append({"cells": [{"c": 0, "k": "i", "v": t}]})
    spec = {"fmt": case["fmt"], "sst": ["a"], "xfs": [0, 14], "dt": dts, "sheets": [{"name": "S", "rows": rows}]}
    s, _ = rc.check_read(case_of(spec, {"conflict_resolve": "temporal"}))
    return s, s == "table"


SUBS = [
    read_sub("texts", cases, 2600, rule="non-trivial: a table of at least two cells"),
    Sub("calendar", check_days, enum=days, rule="days 1900-2200 in each default format, with and without times (quick: every 11th; thorough: every day)"),
]
