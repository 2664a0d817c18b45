"""skip_cols."""
import copy

from .common import *

RULE = "General sheets with sets of skipped columns; oracles: reference reader, and the same sheet with the cells of those columns deleted."


@st.composite
def cases(draw):
    case = draw(gen.option_case(opts=("header", "skip_rows", "take_rows", "after", "skip_cols", "conflict", "nulls", "lookup"), always=("skip_cols",)))
    cs = sorted({c["c"] for r in case["spec"]["sheets"][0]["rows"] for c in r["cells"]})
    if cs:
        case["kw"]["skip_cols"] = draw(st.lists(st.sampled_from(cs + cs + [0, 1, 2, 3, 25, 26, 100, 16383, 99999]), min_size=0, max_size=len(cs), unique=True))
        if draw(st.integers(0, 3)) == 0:  # long lists, in any order, with repeats and columns that are not there
            more = draw(st.lists(st.integers(0, 900), min_size=8, max_size=60)) + case["kw"]["skip_cols"]
            if draw(st.integers(0, 2)) == 0:  # everything from some column on
                more += range(draw(st.sampled_from([100, 300, 1000])), draw(st.sampled_from([400, 1300, 16384])))
                case["kw"]["skip_cols"] = [*more[::-1]] if draw(st.booleans()) else more
            else:
                case["kw"]["skip_cols"] = draw(st.permutations(more))
    return case


def check_deleted(case):
    c = copy.deepcopy(case)
    skip = set(c["kw"].pop("skip_cols", []))
    gone = 0
    for r in c["spec"]["sheets"][0]["rows"]:
        k = len(r["cells"])
        r["cells"] = [x for x in r["cells"] if x["c"] not in skip]
        gone += k - len(r["cells"])
    if isinstance(case["kw"].get("lookup_head"), int) and case["kw"]["lookup_head"] in skip:
        return "lookup in skipped column", False
    res = []
    for x in (case, c):
        try:
            res.append(rc.do_read(wb.build(x["spec"]), 0, x["kw"]))
        except Exception as e:
            res.append(e)
    if any(isinstance(x, Exception) for x in res):
        if not all(isinstance(x, Exception) for x in res):
            raise Violation(f"with skip_cols: {res[0]!r:.300}, with the cells deleted: {res[1]!r:.300}")
        return "both raise", gone > 0
    rc.validate(res[0])
    same_table(res[0], res[1], "skip_cols and deleted cells")
    return "equal", gone > 0


SUBS = [
    read_sub("oracle", cases, 1800),
    Sub("deleted", check_deleted, lambda: gen.scaled(cases()), 1800, rule="metamorphic; non-trivial: cells were skipped"),
]
