"""Arguments that cannot be honoured."""
import threading

from .common import *

RULE = "Sheets and options that read alone, made unusable by one argument; the read has to raise and to leave nothing running."

BAD_INT = [-1, -2, -1000, 1.0, 0.5, -0.5, "1", "x", [1], None]
BAD_FILTERS = [5, {"a": 1}, ["a", 1], [0, "a"], [0, 1.5], [None], b"a", [b"a"], 1.5, [["a"]], [1.0, "a", 2]]
BAD_OPS = ["xor", "AND", "Or", "", "andor", "not", 5, None, {"and"}, True]
BAD_RX = ["(", "[a", "a)", "*", "(?P<x", "a{2,1}", "\\"]


@st.composite
def cases(draw):
    case = draw(gen.option_case(min_rows=2, max_rows=6, ser=False, custom=False, opts=("header", "skip_rows", "take_rows", "skip_cols", "conflict"), max_pre=1,
                                cols=st.lists(st.integers(0, 6), min_size=2, max_size=5, unique=True).map(sorted)))  # fmt: skip
    kw = case["kw"]
    what = draw(st.sampled_from(["skip_rows", "take_rows", "row_filters", "strategy", "operator", "count", "regex filter", "regex lookup", "header", "dtypes"]))
    case["what"] = what
    rows = case["spec"]["sheets"][0]["rows"]
    if what in ("strategy", "operator", "count"):
        # columns that hold values, so that the operators are needed
        kw.pop("skip_cols", None)
        kw.pop("skip_rows", None)
        kw.pop("take_rows", None)
        k = draw(st.integers(2, 4))
        for r in rows:
            r["cells"] = [c for c in r["cells"] if c["c"] > 20]
        for i in range(draw(st.integers(5, 8))):
            rows.append({"cells": [{"c": c, "k": "n", "v": float(i + c), "s": 1} for c in range(k)]})
        if isinstance(kw.get("header"), list):
            kw["header"] = 0
        kw["row_filters"] = list(range(k))
        ops = [draw(st.sampled_from(["and", "or"])) for _ in range(k - 1)]
        if what == "strategy":
            case["bad"] = ["row_filters_strategy", draw(st.sampled_from(BAD_OPS).filter(lambda x: not isinstance(x, set)))]
        elif what == "operator":
            ops[draw(st.integers(0, k - 2))] = draw(st.sampled_from([x for x in BAD_OPS if not isinstance(x, set)]))
            case["bad"] = ["row_filters_strategy", ops]
        else:
            n = draw(st.sampled_from([0, k - 2, k, k + 1]))
            case["bad"] = ["row_filters_strategy", (ops * 4)[:n]]
    elif what == "row_filters":
        case["bad"] = ["row_filters", draw(st.integers(0, len(BAD_FILTERS) - 1))]
    elif what == "regex filter":
        p = draw(st.sampled_from(BAD_RX))
        case["bad"] = ["row_filters", draw(st.sampled_from([p, [p]]))]
    elif what == "regex lookup":
        case["bad"] = ["lookup_head", draw(st.sampled_from(BAD_RX))]
    elif what in ("header", "dtypes"):
        case["bad"] = [what, draw(st.sampled_from([-2, -1, 1, 2, 7]))]
    else:
        case["bad"] = [what, draw(st.sampled_from(BAD_INT))]
    return case


def check(case):
    data = wb.build(case["spec"])
    name, bad = case["bad"]
    try:
        ok = rc.do_read(data, 0, case["kw"])
        n = ok.num_columns
    except Exception:
        ok, n = None, None
    kw = dict(case["kw"])
    if case["what"] == "row_filters":
        bad = BAD_FILTERS[bad]
    elif case["what"] in ("header", "dtypes"):
        if n is None or n + bad < 0:
            return "not readable without it", False
        bad = [f"c{i}" for i in range(n + bad)] if name == "header" else ["large_string"] * (n + bad)
    kw[name] = bad
    before = set(threading.enumerate())
    try:
        t = rc.do_read(data, 0, kw)
    except Exception as e:
        left = set(threading.enumerate()) - before
        if left:
            raise Violation(f"{name}={bad!r}: threads left running {left} after {rc.describe(e)}") from None
        return case["what"] + ("" if ok is not None else " (not readable anyway)"), ok is not None
    raise Violation(f"{name}={bad!r}: read returned a table of {t.num_rows} rows and {t.num_columns} columns")


SUBS = [Sub("arguments", check, cases, 4000, rule="non-trivial: the read succeeds without the unusable argument")]
