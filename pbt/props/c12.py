"""lookup_head."""
from .common import *

RULE = "Preamble, header and body rows with lookup_head as pattern or column and all sizes; oracle: reference reader over all admissible header rows."


@st.composite
def exact(draw):
    """One marker cell somewhere, at or around the edge of the window."""
    fmt = draw(st.sampled_from(["xlsx", "xlsb"]))
    n = draw(st.integers(2, 40))
    at = draw(st.integers(0, n - 1))
    col = draw(st.sampled_from([0, 1, 2, 5, 26, 700]))
    other = draw(st.sampled_from([c for c in (0, 1, 2, 3, 27) if c != col]))
    # a number as text, with numbers below the window that it must not be one of
    mark = draw(st.sampled_from(["MARK"] * 5 + ["007"]))
    late = draw(st.booleans())  # nothing above the marker in its column
    spec = {"fmt": fmt, "sst": [mark, "other", "#N/A"], "xfs": [0, 1, 14], "sheets": []}
    rows = []
    for r in range(n):
        cells = {other: {"c": other, "k": "i", "v": f"o{r}"}}
        if r == at:
            cells[col] = {"c": col, "k": draw(st.sampled_from("sti")), "v": mark}
            if cells[col]["k"] == "s":
                cells[col]["v"] = 0
        elif mark == "007" and r < at + 2:
            pass
        elif r > at and draw(st.integers(0, 3)):
            cells[col] = draw(st.sampled_from([{"c": col, "k": "n", "v": float(r), "s": 1}, {"c": col, "k": "n", "v": 40000.0 + r, "s": 2}, {"c": col, "k": "i", "v": "w"}]))
        elif r < at and not late and draw(st.booleans()):
            cells[col] = draw(st.sampled_from([{"c": col, "k": "i", "v": "above"}, {"c": col, "k": "i", "v": "mark"}, {"c": col, "k": "t", "v": "MaRK"}, {"c": col, "k": "i", "v": " x MARKS"[: 5 + r % 4]}, {"c": col, "k": "s", "v": 1}, {"c": col, "k": "s", "v": 2}, {"c": col, "k": "z", "s": 2}]))
        rows.append({"cells": [cells[c] for c in sorted(cells)]})
    spec["sheets"] = [{"name": "S", "rows": rows}]
    kw = {"header": draw(st.sampled_from([0, 1, 1, 1, 2])), "lookup_head": draw(st.sampled_from(["^MARK$", "MARK", "ARK$", "^M", "^[Mm]ark$", "M[A-Z]+K", "(MARK|zz)", col, col]))}
    size = draw(st.sampled_from([at, at + 1, at + 1, at + 2, n, 30, None, 1, 1000]))
    if mark == "007":
        size = draw(st.sampled_from([max(at, 1), at + 1, at + 1, at + 2]))
        kw["lookup_head"] = draw(st.sampled_from(["^007$", "07", "^0", col]))
    if size:
        kw["lookup_size"] = size
    if draw(st.integers(0, 4)) == 0:
        # many more columns, longer and shorter than that of the marker
        m = draw(st.sampled_from([6, 12, 40]))
        for j in range(m):
            for r in sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=3))):
                rows[r]["cells"].append({"c": 800 + j, "k": "i", "v": f"w{j}"})
    if draw(st.integers(0, 3)) == 0 or mark == "007":
        kw["conflict_resolve"] = "all"
    return case_of(spec, kw)


def late(case, status, table):
    return status == "rejected" or status == "table" and table.num_columns >= 1


SUBS = [
    read_sub("marker", exact, 2400, rule="one marker near the edge of the window; non-trivial: rejected, or a table", nontrivial=late),
    read_sub("layouts", lambda: gen.option_case(opts=("header", "lookup", "skip_rows", "take_rows", "skip_cols", "nulls"), always=("lookup",)), 1600),
]
