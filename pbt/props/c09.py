"""Mixed columns."""
from .common import *

RULE = "Columns mixing dates, numbers, booleans, date text, numeric text and other text, under each conflict_resolve; oracle: reference reader."
MODES = ["no", "temporal", "numeric", "all"]


@st.composite
def cases(draw):
    spec, roles = draw(gen.base_spec(custom=draw(st.booleans()), ser=draw(st.integers(0, 5)) == 0, max_sst=5))
    dts = dict(draw(st.lists(gen.date_texts(), min_size=1, max_size=4)))
    spec["dt"] = dts
    shared_extra = draw(st.lists(st.sampled_from(sorted(dts) + gen.NUM_TEXTS), max_size=4))
    base = len(spec["sst"])
    spec["sst"] = spec["sst"] + shared_extra
    n = draw(st.integers(2, 12))
    cols = []
    for _ in range(draw(st.integers(1, 3))):
        kinds = draw(st.lists(st.sampled_from(["num", "numrk", "date", "daterk", "bool", "dtext", "ntext", "text", "sdtext", "shared", "none"]), min_size=2, max_size=4, unique=True))
        if draw(st.booleans()):  # columns that can convert
            kinds = draw(st.sampled_from([["date", "dtext"], ["date", "num", "dtext"], ["num", "ntext"], ["date", "ntext"], ["date", "dtext", "sdtext"],
                                          ["num", "bool", "ntext"], ["date", "num"], ["daterk", "numrk", "dtext"], ["num", "sdtext"], ["date", "dtext", "ntext", "num"]]))  # fmt: skip
        col = []
        gaps = draw(st.integers(0, 3)) == 0
        while len(col) < n:
            if gaps:
                col += [None] * draw(st.integers(0, 2))
            k = draw(st.sampled_from(kinds))
            for _ in range(draw(st.integers(1, 3))):
                if k == "num":
                    c = {"k": "n", "v": draw(st.one_of(st.integers(0, 60000).map(float), gen.numbers)), "s": draw(st.sampled_from(roles["N"]))}
                elif k == "numrk":
                    raw = draw(st.integers(0, 60000)) << 2 | 2
                    c = {"k": "n", "v": wb.rk_value(raw), "rk": raw, "s": draw(st.sampled_from(roles["N"]))}
                elif k == "date":
                    c = {"k": "n", "v": draw(gen.serials), "s": draw(st.sampled_from(roles["T"]))}
                elif k == "daterk":
                    raw = draw(st.integers(1, 60000)) << 2 | 2
                    c = {"k": "n", "v": wb.rk_value(raw), "rk": raw, "s": draw(st.sampled_from(roles["T"]))}
                elif k == "bool":
                    c = {"k": "b", "v": draw(st.booleans()), "s": roles["N"][0]}
                elif k == "dtext":
                    c = {"k": draw(st.sampled_from("ti")), "v": draw(st.sampled_from(sorted(dts)))}
                elif k == "ntext":
                    c = {"k": draw(st.sampled_from("ti")), "v": draw(st.sampled_from(gen.NUM_TEXTS))}
                elif k == "sdtext" and shared_extra:
                    c = {"k": "s", "v": base + draw(st.integers(0, len(shared_extra) - 1))}
                elif k == "none":
                    c = None
                elif k == "shared":
                    c = {"k": "s", "v": draw(st.integers(0, base - 1))}
                else:
                    c = {"k": draw(st.sampled_from("ti")), "v": draw(st.sampled_from(["p", "pq", "2021", "1-2", "x1", "12:60", "1.2.3.4", "--", "0x1F", "1 2"]))}
                col.append(c)
        cols.append(col[:n])
    rows = [{"cells": [{"c": 0, "k": "i", "v": f"r{r}"}] + [{"c": i + 1, **col[r]} for i, col in enumerate(cols) if col[r]]} for r in range(n)]
    spec["sheets"] = [{"name": "S", "rows": rows}]
    kw = {"conflict_resolve": draw(st.sampled_from(MODES))}
    if draw(st.integers(0, 4)) == 0:
        kw["header"] = 1
    if draw(st.integers(0, 4)) == 0:
        kw["row_filters"] = [1]
    if draw(st.integers(0, 4)) == 0:
        kw["float_precision"] = draw(st.sampled_from([0, 2, 10]))
    return case_of(spec, kw)


@st.composite
def runs(draw):
    """Columns of many short runs that all convert, or all but one of them."""
    fmt = draw(st.sampled_from(["xlsx", "xlsb"]))
    dts = dict(draw(st.lists(gen.date_texts(), min_size=1, max_size=3)))
    spec = {"fmt": fmt, "sst": [*dts, *gen.NUM_TEXTS[:4]], "xfs": [0, 1, 14, 22], "dt": dts}
    n = draw(st.integers(8, 40))
    kinds = draw(st.sampled_from([["date", "num", "dtext", "ntext"], ["date", "dtext"], ["date", "ntext"], ["date", "num"], ["num", "ntext"], ["num", "bool", "ntext"], ["date", "dtext", "sdtext"], ["num", "sntext"]]))
    col = []
    for i in range(n):
        # the last kind at the very end, or anywhere
        k = kinds[-1] if i == n - 1 and n % 2 else kinds[i % len(kinds)] if n % 3 == 0 else draw(st.sampled_from(kinds))
        if k == "date":
            c = {"k": "n", "v": float(draw(st.integers(1, 60000))), "s": draw(st.sampled_from([2, 3]))}
        elif k == "num":
            c = {"k": "n", "v": float(draw(st.integers(1, 60000))), "s": 1}
        elif k == "bool":
            c = {"k": "b", "v": draw(st.booleans()), "s": 1}
        elif k[0] == "s":
            c = {"k": "s", "v": draw(st.integers(0, len(dts) - 1)) if k == "sdtext" else len(dts) + draw(st.integers(0, 3))}
        else:
            c = {"k": draw(st.sampled_from("ti")), "v": draw(st.sampled_from(sorted(dts) if k == "dtext" else gen.NUM_TEXTS))}
        col.append(c)
    if draw(st.booleans()):
        col[draw(st.one_of(st.just(n - 1), st.integers(0, n - 1)))] = draw(st.sampled_from([{"k": "i", "v": "1.2.3.4"}, {"k": "i", "v": draw(st.sampled_from(gen.NUM_TEXTS))}, {"k": "i", "v": draw(st.sampled_from(sorted(dts)))}]))
    for _ in range(draw(st.integers(0, 2))):
        col[draw(st.integers(0, n - 1))] = None
    spec["sheets"] = [{"name": "S", "rows": [{"cells": [{"c": 0, "k": "i", "v": f"r{r}"}] + ([{"c": 1, **c}] if c else [])} for r, c in enumerate(col)]}]
    kw = {"conflict_resolve": draw(st.sampled_from([*MODES, "all", "all"]))}
    if draw(st.integers(0, 4)) == 0:
        kw["row_filters"] = [1]
    return case_of(spec, kw)


def mixed(case, status, table):
    return status == "table" and table.num_rows >= 2 and table.num_columns >= 2


SUBS = [
    read_sub("mixed", cases, 3200, rule="non-trivial: a table with two or more rows and columns", nontrivial=mixed),
    read_sub("runs", runs, 1500, rule="non-trivial: a table with two or more rows and columns", nontrivial=mixed),
    read_sub("default", lambda: cases().map(lambda c: (c["kw"].pop("conflict_resolve"), c)[1]), 400, rule="conflict_resolve left out means 'no'", nontrivial=mixed),
]
