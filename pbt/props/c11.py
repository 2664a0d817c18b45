"""Headers."""
from .common import *

RULE = "Header grids (text, number and date cells, gaps, collisions) over small bodies, all forms of the header argument; oracle: naming rules of the statement."
NAMES = ["a", "b", "a.1", "a.2", "a.1.1", "Unnamed", "Unnamed.1", "c", "x, y", "Total", "A", "total", "unnamed", "A.1"]


@st.composite
def grids(draw, size=""):
    spec, roles = draw(gen.base_spec(custom=False, sst_pool=st.sampled_from(NAMES), max_sst=10, ser=draw(st.integers(0, 4)) == 0))
    cs = draw(gen.col_sets)
    if draw(st.booleans()):
        cs = sorted(set(range(draw(st.integers(2, 7)))) | set(cs[:1]))
    h = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))
    names = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), gen.header_texts)
    if size == "deep":
        h = draw(st.integers(5, 16))
        cs = cs[:4]
    elif size == "many":
        # names come back after many other columns
        cs = sorted(set(range(draw(st.integers(8, 70)))) | set(cs[:1]))
        h = draw(st.sampled_from([1, 1, 2]))
        names = st.one_of(st.sampled_from(draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3))), gen.header_texts)
        if draw(st.booleans()):
            # few plain names, so that the numbers of the repetitions are known
            names = st.sampled_from(draw(st.sampled_from([["a"], ["a", "b"], ["Total", "x, y", "c"]])))
            spec["sst"] = ["a", "b", "", "#N/A"]
            if draw(st.booleans()):
                cs = list(range(draw(st.integers(12, 260))))
    kinds = "stitsi.....nd" if h > 1 else "stitsi..nd"
    if size == "many" and draw(st.booleans()):
        kinds = kinds[:-2]
    rows = []
    for r in range(h):
        cells = []
        for c in cs:
            k = draw(st.sampled_from(kinds))
            if k == ".":
                continue
            if k == "n":
                cells.append({"c": c, "k": "n", "v": draw(st.sampled_from([1.0, 2.0, 2021.0, 1.5, 0.1, 100000.0, -7.0, 1e6])), "s": roles["N"][0]})
            elif k == "d":
                cells.append({"c": c, "k": "n", "v": float(draw(st.integers(36526, 47000))), "s": roles["T"][0]})
            elif k == "s":
                cells.append({"c": c, "k": "s", "v": draw(st.integers(0, len(spec["sst"]) - 1))})
            else:
                cells.append({"c": c, "k": k, "v": draw(names)})
        rows.append({"cells": cells})
    n = draw(st.sampled_from([0, 0, 1, 2, 3, 5] if size != "many" else [0, 1]))
    body = draw(gen.body_rows(spec, roles, cs, n, profiles=["num", "text", "date", "sparse", "mixed"], fmt=spec["fmt"]))
    spec["sheets"] = [{"name": "S", "rows": rows + body}]
    kw = {}
    form = draw(st.sampled_from(["h", "h", "h", "h", "h", "true", "false", "zero", "list", "bad", "other"]))
    if form == "h":
        kw["header"] = h
    elif form in ("true", "false"):
        kw["header"] = form == "true"
    elif form == "zero":
        kw["header"] = 0
    elif form == "other":
        kw["header"] = draw(st.integers(1, 6))
    else:
        ncol = len({c["c"] for r in spec["sheets"][0]["rows"] for c in r["cells"] if o.cell_value(c, spec, o.null_pred({})) is not None})
        m = max(0, ncol + (0 if form == "list" else draw(st.sampled_from([-2, -1, 1, 2]))))
        kw["header"] = draw(st.lists(st.sampled_from(NAMES + ["p", "q", "r", ""]), min_size=m, max_size=m, unique=m < 10))
    if draw(st.booleans()):
        kw["take_rows_non_empty"] = True
    if isinstance(kw["header"], int) and kw["header"] >= 1 and draw(st.integers(0, 4)) == 0:
        kw["skip_rows_after_header"] = draw(st.integers(0, 2))
    if draw(st.integers(0, 2)) == 0:
        kw["conflict_resolve"] = draw(st.sampled_from(["temporal", "numeric", "all"]))
    return case_of(spec, kw)


def collide(case, status, table):
    return status == "rejected" or status == "table" and table.num_columns >= 2


SUBS = [
    read_sub("grids", grids, 4000, rule="non-trivial: a rejection, or two or more columns", nontrivial=collide),
    read_sub("deep", lambda: grids("deep"), 400, rule="headers of 5 to 16 rows; non-trivial: a rejection, or two or more columns", nontrivial=collide),
    read_sub("many", lambda: grids("many"), 300, rule="8 to 70 columns; non-trivial: a rejection, or two or more columns", nontrivial=collide),
    read_sub("layouts", lambda: gen.option_case(opts=("header", "lookup", "skip_rows", "after", "conflict", "prec"), always=("header",)), 1000),
]
