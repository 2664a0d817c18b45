"""Error and null values."""
import copy

from .common import *

RULE = "Sheets whose texts come from a small pool of error strings, near-errors, null tokens and ordinary words, with null_values lists and predicates."
POOL = gen.ERR_LIST + ["x", "xx", "x1", "-", "--", "n/a", "N/A", "a", "b", "#N/A!", "#n/a", "# N/A", "#DIV/0", "N/A #N/A", "#REF", "#NUM", "null", "1", "0", "x y", "#VALUE! x", "Long Text Of Many Words, " * 4 + "End", "XY" * 140, "é" * 60 + "Ü", "ß", "İ", "Ab", "aB"]
# white space around texts and tokens (texts of XLSX lose theirs)
POOL_WS = [" x", "x ", " #N/A", "#N/A ", "\t-", "n/a\n", " a ", "x", "#N/A", "a", "\u00a0x"]
NULLS_WS = [[" x"], ["x "], [" a ", "-"], [" #N/A", "n/a\n"], ["\u00a0x"], ["x", "-", "n/a", "a"], [" "], [""], ["X"], ["N/A", "A"], "pred:spaced"]
NULLS = [None, ["x", "xx"], ["n/a"], ["x y"], ["N/A #N/A"], ["-", "n/a", "N/A"], ["a"], [], ["b", "x", "-", "null"], ["1"], ["0", "2"], ["0", "1", "2", "3", "4", "5"], ["12", "13.5", "12.0", "0"], "pred:startswith-x", "pred:len1", "pred:never", "pred:dash", "pred:hash", "pred:hash", "pred:re", "pred:count", ["XY" * 140], ["ss", "İ", "AB"]]


@st.composite
def cases(draw):
    spec, roles = draw(gen.base_spec(custom=False, sst_pool=st.sampled_from(POOL), min_sst=1, max_sst=14))
    if draw(st.booleans()):
        spec["sst"] = draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=30))
    nulls = draw(st.sampled_from(NULLS))
    pool = POOL
    if draw(st.integers(0, 4)) == 0:
        nulls = draw(st.sampled_from([*NULLS_WS, None]))
        pool = [*POOL, *POOL_WS * 4]
        spec["sst"] = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=12))
    rows = []
    ncol = draw(st.integers(1, 3))
    for _ in range(draw(st.integers(1, 10))):
        cells = []
        for c in range(ncol):
            k = draw(st.sampled_from("sssstienb."))
            if k == ".":
                continue
            cell = {"c": c, "k": k}
            if k == "s":
                cell["v"] = draw(st.integers(0, len(spec["sst"]) - 1))
            elif k == "e":
                cell["v"] = draw(st.sampled_from([*gen.ERR_CODES, "#SPILL!", "#CALC!", "#FIELD!", "#UNKNOWN!", "#BLOCKED!"]))
            elif k == "b":
                cell["v"], cell["s"] = draw(st.booleans()), draw(st.sampled_from(roles["N"] + roles["T"]))
            elif k == "n":
                cell["v"], cell["s"] = draw(st.sampled_from([1.0, 1.0, 0.0, 12.0, 13.5])), draw(st.sampled_from(roles["N"] + roles["T"]))
            else:
                cell["v"] = draw(st.sampled_from(pool))
                if k == "i" and len(cell["v"]) > 1 and draw(st.integers(0, 4)) == 0:
                    cell["runs"] = [cell["v"][:1], cell["v"][1:]]
            if "s" not in cell and draw(st.integers(0, 2)) == 0:
                cell["s"] = draw(st.sampled_from(roles["N"] + roles["T"]))
            cells.append(cell)
        rows.append({"cells": cells})
    spec["sheets"] = [{"name": "S", "rows": rows}]
    kw = {} if nulls is None else {"null_values": nulls}
    if draw(st.booleans()):
        kw["take_rows_non_empty"] = draw(st.booleans())
    return case_of(spec, kw)


def absent(case):
    """The same sheet without the cells that are nulls."""
    c = copy.deepcopy(case)
    isnull = o.null_pred(c["kw"])
    for sh in c["spec"]["sheets"]:
        for r in sh["rows"]:
            r["cells"] = [x for x in r["cells"] if o.cell_value(x, c["spec"], isnull) is not None]
    return c


def check_absent(case):
    a = absent(case)
    res = []
    for c in (case, a):
        try:
            res.append(rc.do_read(wb.build(c["spec"]), 0, c["kw"]))
        except Exception as e:
            res.append(e)
    n = sum(len(r["cells"]) for r in case["spec"]["sheets"][0]["rows"]) - sum(len(r["cells"]) for r in a["spec"]["sheets"][0]["rows"])
    if any(isinstance(x, Exception) for x in res):
        if not all(isinstance(x, Exception) for x in res):
            raise Violation(f"with null cells: {res[0]!r:.300}, without them: {res[1]!r:.300}")
        return "nothing left", False
    rc.validate(res[0])
    same_table(res[0], res[1], "with and without the null cells")
    return case["spec"]["fmt"], n > 0


SUBS = [
    read_sub("oracle", cases, 2600, rule="non-trivial: a table of at least two cells"),
    Sub("absent", check_absent, lambda: gen.scaled(cases()), 1200, rule="metamorphic: deleting the null cells does not change the table; non-trivial: at least one null cell and a table"),
]
