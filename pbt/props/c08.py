"""Column types and numbers."""
import struct

from .common import *

RULE = "Columns of one kind with gaps; number columns around the integer / float decision for every float_precision; oracle: exact arithmetic."
BASE = st.sampled_from([0, 1, -1, 2, 7, 41, -41, 100, 12345, 10**6, -(10**6), 10**9, 2**31, 2**33 + 1, 10**12])


@st.composite
def near_int(draw, prec):
    """An integer plus a fraction around half a unit of the given digit."""
    i = draw(BASE)
    d = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 6, 8, 10, 11, 12, 13, 14, 15]))
    k = draw(st.sampled_from([0.3, 0.49, 0.499, 0.51, 0.6, 0.9, 1, 2, 4, 6]))
    p = prec if draw(st.booleans()) else d
    f = k * 10.0**-p
    return float(i + (f if i >= 0 else -f) * draw(st.sampled_from([1, 1, -1])))


# whole numbers no 53 bits can count, up to the edge of 64-bit integers
huge = st.one_of(
    st.builds(lambda e, m: float(m << (e - 52)) if e >= 52 else float(m), st.integers(52, 62), st.integers(2**52, 2**53 - 1)),
    st.sampled_from([2.0**52 + 1, 2.0**53, 2.0**53 + 2, 2.0**54, 2.0**60, 2.0**62, 2.0**63 - 1024, 2.0**62 + 2.0**61]),
).flatmap(lambda v: st.sampled_from([v, -v]))


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["xlsx", "xlsb"]))
    prec = draw(st.sampled_from([None, None, 0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]))
    nid = draw(st.sampled_from(gen.N_IDS))
    spec = {"fmt": fmt, "sst": ["a", "b", "#N/A"], "xfs": [0, nid, draw(st.sampled_from(gen.T_IDS))]}
    n = draw(st.integers(1, 12))
    cols = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["int", "near", "any", "rk", "mix", "bool", "date", "text", "null", "huge"]))
        col = []
        for r in range(n):
            if draw(st.integers(0, 5)) == 0:
                col.append(None)
                continue
            k = draw(st.sampled_from(["int", "near", "any", "rk", "bool"])) if kind == "mix" else kind
            if k == "rk":
                raw = draw(gen.rks)
                col.append({"k": "n", "v": wb.rk_value(raw), "rk": raw, "s": 1})
            elif k == "bool":
                col.append({"k": "b", "v": draw(st.booleans()), "s": 1})
            elif k == "date":
                col.append({"k": "n", "v": draw(gen.serials), "s": 2})
            elif k == "text":
                col.append({"k": draw(st.sampled_from("sti")), "v": "t"})
                if col[-1]["k"] == "s":
                    col[-1]["v"] = draw(st.integers(0, 2))
            elif k == "null":
                col.append(draw(st.sampled_from([{"k": "z"}, {"k": "e", "v": "#N/A"}, {"k": "s", "v": 2}])))
            else:
                v = draw(huge if k == "huge" else gen.ints if k == "int" else near_int(6 if prec is None else prec) if k == "near" else gen.numbers)
                col.append({"k": "n", "v": v, "s": 1, **({"f": 1} if draw(st.integers(0, 6)) == 0 else {})})
        cols.append(col)
    top = draw(st.integers(0, 2))
    rows = []
    for r in range(n):
        cells = [{"c": 0, "k": "i", "v": f"k{r}"}]
        cells += [{"c": i + 1, **col[r]} for i, col in enumerate(cols) if col[r] is not None]
        rows.append({"cells": cells})
    spec["sheets"] = [{"name": "S", "rows": rows}]
    kw = {}
    if prec is not None:
        kw["float_precision"] = prec
    if top:
        kw["skip_rows"] = top
    if draw(st.integers(0, 3)) == 0:
        kw["header"] = 1
    if draw(st.integers(0, 3)) == 0:
        kw["take_rows"] = draw(st.integers(1, 6))
    if draw(st.integers(0, 4)) == 0 and len(cols) > 1:
        kw["row_filters"] = [draw(st.integers(1, len(cols)))]
    return case_of(spec, kw)


@st.composite
def windows(draw):
    """Kinds that change from row to row; options cut a window that may be pure."""
    spec, roles = draw(gen.base_spec(custom=False, max_sst=4, ser=False))
    segs = []
    for _ in range(draw(st.integers(2, 4))):
        kind = draw(st.sampled_from(["num", "date", "text", "frac", "none"]))
        for _ in range(draw(st.integers(1, 4))):
            if kind == "num":
                segs.append({"k": "n", "v": float(draw(st.integers(0, 99))), "s": roles["N"][0]})
            elif kind == "frac":
                segs.append({"k": "n", "v": draw(st.integers(0, 99)) + 0.25, "s": roles["N"][0]})
            elif kind == "date":
                segs.append({"k": "n", "v": float(draw(st.integers(40000, 41000))), "s": roles["T"][0]})
            elif kind == "text":
                segs.append({"k": "i", "v": draw(st.sampled_from(["p", "q"]))})
            else:
                segs.append(None)
    rows = [{"cells": [{"c": 0, "k": "i", "v": f"r{i}"}] + ([{"c": 1, **x}] if x else [])} for i, x in enumerate(segs)]
    spec["sheets"] = [{"name": "S", "rows": rows}]
    n = len(segs)
    kw = {"skip_rows": draw(st.integers(0, n - 1)), "take_rows": draw(st.integers(0, n))}
    if draw(st.booleans()):
        kw["header"] = draw(st.integers(1, 2))
        kw["skip_rows_after_header"] = draw(st.integers(0, 3))
    return case_of(spec, kw)


def tall_cases(tier):
    """A long column of whole numbers (or dates, or texts) that one cell may or may not turn."""
    for fmt in ("xlsx", "xlsb"):
        for n in (100, 1000, 4097, 9000) if tier == "quick" else (100, 1000, 4097, 9000, 65537, 140000):
            for at in (0, n // 2, n - 1):
                for odd in ("whole", "frac", "text", "date", "none", "bool", "big"):
                    if tier != "quick" and n > 60000 and at == 0:
                        continue
                    yield {"fmt": fmt, "n": n, "at": at, "odd": odd}


ODD = {
    "whole": {"k": "n", "v": 12.0, "s": 1}, "frac": {"k": "n", "v": 12.5, "s": 1}, "text": {"k": "i", "v": "t"}, "date": {"k": "n", "v": 40000.5, "s": 2}, "none": None,
    "bool": {"k": "b", "v": True}, "big": {"k": "n", "v": 2.0**63, "s": 1},
}  # fmt: skip


def tall_check(case):
    rows = []
    for i in range(case["n"]):
        cells = [{"c": 0, "k": "n", "v": float(i % 99), "s": 1}, {"c": 1, "k": "n", "v": 30000.0 + i % 50, "s": 2}, {"c": 2, "k": "n", "v": -0.0, "s": 1}]
        if i == case["at"]:
            cells = [{**ODD[case["odd"]], "c": c["c"]} for c in cells] if ODD[case["odd"]] else []
        rows.append({"cells": cells})
    spec = {"fmt": case["fmt"], "sst": ["a"], "xfs": [0, 1, 14], "sheets": [{"name": "S", "rows": rows}]}
    status, table = rc.check_read(case_of(spec))
    return f"{case['fmt']}/{case['odd']}/{status}", table is not None


SUBS = [
    Sub("tall", tall_check, enum=tall_cases, rule="columns of 100 to 140000 cells of one kind with one cell of another kind first, in the middle and last; each non-trivial"),
    read_sub("numbers", cases, 2600, rule="non-trivial: a table of at least two cells"),
    read_sub("windows", windows, 1200, rule="kinds changing along the column while options cut a window; non-trivial: a table of at least two cells"),
    read_sub("general", lambda: gen.sheet_case(with_dates=False).map(drop), 600, rule="general sheets; non-trivial: a table of at least two cells"),
]
