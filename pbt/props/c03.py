"""Parity of the two readers."""
import copy

from .common import *

RULE = "Sheets expressible in both formats, with drawn options, written by two independent writers and read by both readers."
PTEXT = gen.texts.filter(lambda s: s == s.strip() and s)
PROF = ["num", "num", "int", "date", "date", "text", "text", "mixed", "bool", "sparse"]
TYPES = ["large_string", "string", "float64", "int64", "ts:ms", "ts:us", "ts:s", "int32", "bool_", "date32"]


def parity_spec(spec):
    """Leaves only what both formats express alike: recognised number formats, texts with plain edges."""
    spec["sst"] = [x for x in spec["sst"] if (t := o.sst_text(x)) and t == t.strip()] or ["q"]
    if any(o.sst_text(x).endswith(("\r", "\n")) for x in spec["sst"]):
        spec["sst"] = ["q"]
    n = len(spec["sst"])
    for sh in spec["sheets"]:
        for r in sh["rows"]:
            for c in r["cells"]:
                if c["k"] == "s":
                    c["v"] %= n
                elif c["k"] in "nb" and o.style_class({**spec, "fmt": "xlsx"}, c.get("s", 0)) == "U":
                    c["s"] = 1
                c.pop("txt", None)
    return spec


@st.composite
def cases(draw):
    case = draw(gen.option_case(profiles=PROF, sst_pool=PTEXT, ser=draw(st.integers(0, 3)) == 0, max_rows=8))
    case["spec"] = parity_spec(case["spec"])
    if draw(st.integers(0, 2)) == 0:
        # texts that are or look like errors and nulls, in every kind of text cell
        tok = st.sampled_from(gen.ERR_LIST + gen.ERR_LIST + ["#N/A!", "# N/A", "#DIV/0", "-", "n/a", "x", "xx", "a", "TRUE", "1"])
        sst = case["spec"]["sst"]
        sst[:] = [draw(tok) if draw(st.booleans()) else x for x in sst] + [draw(tok)]
        for r in case["spec"]["sheets"][0]["rows"]:
            for c in r["cells"]:
                if c["k"] in "sti" and draw(st.integers(0, 2)) == 0:
                    c.pop("runs", None)
                    if c["k"] == "s":
                        c["v"] = draw(st.integers(0, len(sst) - 1))
                    else:
                        c["v"] = draw(tok)
    if draw(st.integers(0, 4)) == 0:
        case["kw"]["dtypes"] = draw(st.sampled_from(TYPES))
    return case


def with_fmt(case, fmt):
    c = copy.deepcopy(case)
    c["spec"]["fmt"] = fmt
    return c


def check(case):
    res = []
    for fmt in ("xlsx", "xlsb"):
        c = with_fmt(case, fmt)
        try:
            res.append(rc.do_read(wb.build(c["spec"]), 0, c["kw"]))
            rc.validate(res[-1])
        except Exception as e:
            res.append(e)
    a, b = res
    if isinstance(a, Exception) or isinstance(b, Exception):
        if not (isinstance(a, Exception) and isinstance(b, Exception)):
            raise Violation(f"one format is read, the other one raises: xlsx {rc.describe(a) if isinstance(a, Exception) else a.shape}, xlsb {rc.describe(b) if isinstance(b, Exception) else b.shape}")
        return "both raise", bool(case["kw"])
    same_table(a, b, "xlsx and xlsb")
    return "equal tables", a.num_rows * a.num_columns >= 2


def oracle_check(case):
    """Both against the reference reader as well (dtypes are C16's subject)."""
    out = []
    for fmt in ("xlsx", "xlsb"):
        s, t = rc.check_read(with_fmt(case, fmt))
        out.append(s)
    return "/".join(out), out[0] != "unspecified"


SUBS = [
    Sub("parity", check, lambda: gen.scaled(cases()), 1500, rule="non-trivial: tables of at least two cells, or both rejected under some option"),
    Sub("oracle", oracle_check, lambda: gen.scaled(cases()).map(lambda c: (c["kw"].pop("dtypes", None), c)[1]), 600, rule="the same cases against the reference reader; non-trivial: the oracle determines the outcome"),
]
