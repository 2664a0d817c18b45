"""row_filters."""
from .common import *

RULE = "Sheets with all null patterns over named columns, filters as patterns or positions, all operator forms; oracle: list operations on the rows."
NAMES = ["alpha", "beta", "gamma", "alphabet", "b", "total", "x1"]


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["xlsx", "xlsb"]))
    spec = {"fmt": fmt, "sst": ["p", "#N/A", "q"], "xfs": [0, 1, 14], "ser": {}}
    ncol = draw(st.integers(1, 6))
    cs = sorted(draw(st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 26, 30, 702]), min_size=ncol, max_size=ncol, unique=True)))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=ncol, max_size=ncol, unique=True))
    h = draw(st.sampled_from([0, 1, 1, 1, 2]))
    pre = draw(st.integers(0, 2))
    rows = [{"cells": [{"c": cs[0], "k": "i", "v": f"pre{i}"}]} for i in range(pre)]
    if h:
        rows.append({"cells": [{"c": c, "k": "i", "v": nm} for c, nm in zip(cs, names)]})
    rows += [{"cells": [{"c": c, "k": "i", "v": "sub"} for c in cs]} for _ in range(h - 1)]
    n = draw(st.integers(0, 12))
    dens = [draw(st.integers(0, 4)) for _ in cs]
    for r in range(n):
        cells = []
        for c, d in zip(cs, dens):
            if draw(st.integers(0, 4)) < d:
                cells.append(draw(st.sampled_from([{"c": c, "k": "n", "v": float(r), "s": 1}, {"c": c, "k": "n", "v": r + 0.5, "s": 1}, {"c": c, "k": "i", "v": f"{c}r{r}"},
                                                   {"c": c, "k": "n", "v": 40000.0 + r, "s": 2}, {"c": c, "k": "s", "v": 0}, {"c": c, "k": "s", "v": 1}])))  # fmt: skip
        rows.append({"cells": cells})
    spec["sheets"] = [{"name": "S", "rows": rows}]
    kw = {"header": h, "skip_rows": pre}
    if draw(st.integers(0, 5)) == 0 and pre and h:
        kw["skip_rows"] = 0
        kw["lookup_head"] = "^" + names[0] + "$"
    if h and draw(st.booleans()):
        kw["skip_rows_after_header"] = draw(st.integers(0, 4))
    if draw(st.integers(0, 3)) == 0:
        kw["take_rows_non_empty"] = True
    if draw(st.integers(0, 5)) == 0:
        kw["take_rows"] = draw(st.integers(1, n + 3))
    if h == 0 and draw(st.booleans()):
        if draw(st.integers(0, 2)) == 0:
            names = [draw(st.sampled_from(["", " ", "\t"])) + x + draw(st.sampled_from(["", " "])) for x in names]
        kw["header"] = names
        h = 1
    if h == 2:
        names = [x + ", sub" for x in names]
    form = draw(st.integers(0, 2))
    if form == 0 and h:
        pats = ["^" + x + "$" for x in names] + names + [x.strip() for x in names] + ["alpha", "\\s", "al|be", ".*a", "b$", "zzz$", "[ab]", "(?i)ALPHA", ".*(m)\\1"]
        kw["row_filters"] = draw(st.sampled_from(pats))
    elif form == 1 and h:
        pats = sorted({*["^" + x + "$" for x in names], *names, *[x.strip() for x in names], "zzz$"})
        if draw(st.integers(0, 3)) == 0:
            pats += ["(?i)BETA", "(?x) al pha", "(al|be)", ".*(m)\\1", "(a)?l"] * 2
        kw["row_filters"] = draw(st.lists(st.sampled_from(pats), min_size=1, max_size=4, unique=True))
    else:
        kw["row_filters"] = draw(st.lists(st.integers(0, ncol + 1), min_size=1, max_size=5, unique=True))
        if draw(st.integers(0, 2)) == 0:
            kw["row_filters"].sort(reverse=draw(st.booleans()))
        if draw(st.integers(0, 4)) == 0:
            kw["row_filters"] += kw["row_filters"][: draw(st.integers(1, 2))]
        if draw(st.integers(0, 5)) == 0:
            # there is no such position
            kw["row_filters"].insert(draw(st.integers(0, 1)), draw(st.sampled_from([-1, -2, -ncol, ncol, 10**9])))
    s = draw(st.integers(0, 4))
    if s == 1:
        kw["row_filters_strategy"] = draw(st.sampled_from(["or", "and"]))
    elif s > 1:
        k = len(kw["row_filters"]) - 1 if isinstance(kw["row_filters"], list) else draw(st.integers(1, 4))
        k = max(0, k + draw(st.sampled_from([0, 0, 0, 0, 1, -1])))
        kw["row_filters_strategy"] = draw(st.lists(st.sampled_from(["or", "and"]), min_size=k, max_size=k))
    if draw(st.integers(0, 5)) == 0:
        kw["conflict_resolve"] = "all"
    return case_of(spec, kw)


SUBS = [
    read_sub("filters", cases, 4500),
    read_sub("layouts", lambda: gen.option_case(always=("filters",)), 1000),
]
