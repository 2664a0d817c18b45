"""C01 / C02: where every cell goes."""
from .common import *


def column_cases(fmt):
    def make(tier):
        step = 512
        for lo in range(0, 16384, step):
            yield {"fmt": fmt, "cols": [lo, lo + step]}

    return make


def column_check(case):
    lo, hi = case["cols"]
    cells = [{"c": c, "k": "n", "v": float(c), "s": 1} for c in range(lo, hi)]
    text = [{"c": c, "k": "i", "v": f"t{c}"} for c in range(lo, hi, 7)]
    spec = {"fmt": case["fmt"], "sst": ["a"], "xfs": [0, 1], "sheets": [{"name": "S", "rows": [{"cells": cells}, {"cells": text}]}]}
    status, _ = rc.check_read(case_of(spec))
    return status, True


def big_tables(*fmts):
    """Shared tables of more than 2^16 entries, read from the far end."""

    def make(tier):
        for fmt in fmts:
            for n in (65537, 70000) if tier == "quick" else (65535, 65536, 65537, 70000, 131073, 300000):
                yield {"fmt": fmt, "n": n}

    return make


def check_big(case):
    n = case["n"]
    use = sorted({0, 1, 2, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 66000, 69999, 131072, n // 2, n - 2, n - 1} & set(range(n)), reverse=True)
    spec = {"fmt": case["fmt"], "sst": [f"s{i:x}" for i in range(n)], "xfs": [0], "sheets": [{"name": "S", "rows": [{"cells": [{"c": 0, "k": "s", "v": i}]} for i in use]}]}
    status, _ = rc.check_read(case_of(spec))
    return case["fmt"] + "/" + status, True


@st.composite
def broad(draw, fmt):
    """Many columns, rows that fill all, a stretch or a few of them."""
    n = draw(st.integers(30, 300))
    step = draw(st.sampled_from([1, 1, 2, 7, 54]))
    rows = []
    for r in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from("asffe"))
        if k == "a":
            idx = range(n)
        elif k == "s":
            a = draw(st.integers(0, n - 1))
            idx = range(a, min(n, a + draw(st.integers(1, 40))))
        elif k == "f":
            idx = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=4)))
        else:
            idx = ()
        rows.append({"cells": [{"c": i * step, "k": "n", "v": float(1000 * r + i), "s": 1} if (i + r) % 3 else {"c": i * step, "k": "i", "v": f"{r}.{i}x"} if (i % 2) else {"c": i * step, "k": "s", "v": 0} for i in idx]})
    spec = {"fmt": fmt, "sst": ["p"], "xfs": [0, 1], "sheets": [{"name": "S", "rows": rows}], "ser": draw(gen.sers(5))}
    return case_of(spec, {"take_rows_non_empty": draw(st.booleans()), "skip_rows": draw(st.sampled_from([0, 0, 1, 2]))})


def far_rows(fmt):
    """Cells in the rows around each power of two up to the last row of a sheet."""

    def make(tier):
        for first in (126, 254, 16382, 32766, 65534, 131070, 262142, 524286, 1048572, 1048575):
            for kw in ({}, {"skip_rows": 1}, {"skip_rows": 2}, {"skip_rows": first - 3, "take_rows_non_empty": True}, {"skip_rows": first + 2},
                       {"skip_rows": first - 1, "take_rows": 3, "take_rows_non_empty": True}, {"take_rows": 1}):  # fmt: skip
                yield {"fmt": fmt, "first": first, "kw": kw}
            if first < 200000 or tier != "quick":
                yield {"fmt": fmt, "first": first, "kw": {"take_rows_non_empty": True}}

    return make


def check_far(case):
    first = case["first"]
    row = lambda i, **k: {"cells": [{"c": 0, "k": "n", "v": float(i), "s": 1}, {"c": 2, "k": "i", "v": f"r{i}"}, {"c": 3, "k": "s", "v": 0}], **k}
    rows = [row(0), row(1), row(2, gap=first - 2), row(3), row(4), row(5)][: 2 + 1048576 - first]
    spec = {"fmt": case["fmt"], "sst": ["a"], "xfs": [0, 1], "sheets": [{"name": "S", "rows": rows}]}
    status, table = rc.check_read(case_of(spec, case["kw"]))
    return status, size(table)


def shape_subs(fmt):
    both = (fmt,)
    return [
        read_sub("sheets", lambda: gen.sheet_case(both, with_dates=True).map(drop), 2400),
        read_sub("gaps", lambda: gen.sheet_case(both, gaps=True, profiles=["num", "text", "sparse", "date"], ser=False).map(drop), 800,
                 rule="rows left out of the file between others; non-trivial: a table of at least two cells"),
        read_sub("tall", lambda: gen.sheet_case(both, max_rows=60, min_rows=15, cols=st.lists(st.integers(0, 30), min_size=1, max_size=3, unique=True).map(sorted)).map(drop), 500),
        read_sub("wide", lambda: gen.sheet_case(both, max_rows=3, cols=st.lists(st.integers(0, 16383), min_size=6, max_size=24, unique=True).map(sorted)).map(drop), 250),
        read_sub("broad", lambda: broad(fmt), 300),
        Sub("letters", column_check, enum=column_cases(fmt), rule="every column A to XFD once (exhaustive over columns)"),
        Sub("far-rows", check_far, enum=far_rows(fmt), rule="rows around 2^7 to 2^20, read whole and through windows; non-trivial: a table with rows"),
        Sub("big-tables", check_big, enum=big_tables(fmt), rule="shared tables of 65537 to 300000 entries; each non-trivial"),
    ]
