"""Row windows."""
from .common import *

RULE = "Sheets with empty, blank-only and error-only rows anywhere and all combinations of the row options; oracle: list operations on the rows."


@st.composite
def windows(draw):
    fmt = draw(st.sampled_from(["xlsx", "xlsb"]))
    spec = {"fmt": fmt, "sst": ["p", "#N/A", "q"], "xfs": [0, 1, 14], "ser": draw(gen.sers(5))}
    n = draw(st.integers(1, 16))
    cs = draw(st.sampled_from([[0], [0, 1], [0, 2, 5], [3, 26]]))
    rows = []
    for r in range(n):
        k = draw(st.sampled_from("ddddddebn"))
        if k == "e":
            rows.append({"cells": [], **({"rep": draw(st.integers(1, 3))} if draw(st.booleans()) else {})})
        elif k == "b":
            rows.append({"cells": [{"c": cs[0], "k": draw(st.sampled_from("z")), "s": 2}]})
        elif k == "n":
            rows.append({"cells": [{"c": cs[-1], "k": "s", "v": 1}]})
        else:
            cells = []
            for c in cs:
                if draw(st.integers(0, 3)) == 0:
                    continue
                cells.append(draw(st.sampled_from([{"c": c, "k": "n", "v": float(100 * c + r), "s": 1}, {"c": c, "k": "i", "v": f"{c}r{r}"}, {"c": c, "k": "n", "v": 40000.0 + r, "s": 2},
                                                   {"c": c, "k": "s", "v": 0}])))  # fmt: skip
            rows.append({"cells": cells})
    if draw(st.booleans()):
        for _ in range(draw(st.integers(1, 3))):
            rows[draw(st.integers(0, n - 1))]["gap"] = draw(st.sampled_from([1, 1, 2, 3, 5, 300, 1000]))
    spec["sheets"] = [{"name": "S", "rows": rows}]
    total = min(40, sum(r.get("rep", 1) + r.get("gap", 0) for r in rows))
    kw = {}
    if draw(st.booleans()):
        kw["skip_rows"] = draw(st.integers(0, total + 1))
    if draw(st.booleans()):
        kw["take_rows"] = draw(st.integers(0, total + 2))
    if draw(st.booleans()):
        kw["take_rows_non_empty"] = draw(st.booleans())
    if draw(st.booleans()):
        kw["header"] = draw(st.integers(0, 3))
        if kw["header"]:
            kw["skip_rows_after_header"] = draw(st.integers(0, total))
    if draw(st.integers(0, 4)) == 0:
        kw["lookup_head"] = draw(st.sampled_from(["p", *cs]))
    if draw(st.integers(0, 4)) == 0:
        kw["skip_cols"] = [draw(st.sampled_from(cs))]
    return case_of(spec, kw)


SUBS = [
    read_sub("windows", windows, 4500),
    read_sub("layouts", lambda: gen.option_case(opts=("header", "lookup", "skip_rows", "take_rows", "after", "filters"), always=("skip_rows", "take_rows")), 1000),
]
