"""dtypes."""
from .common import *

RULE = "Sheets with every column type, read without dtypes and with every form of dtypes; oracle: PyArrow's own cast of the plain columns."
TYPES = ["large_string", "string", "float64", "float32", "int64", "int32", "int8", "uint8", "bool_", "date32", "date64", "ts:s", "ts:ms", "ts:us", "ts:ns",
         "ts:ms|UTC", "ts:us|Europe/Berlin", "dec:20,4", "dec:38,10", "large_binary", "null", "float16", "uint64", "time:s", "time:ms", "time:us", "time:ns", "dur:ms", "uint32", "int16"]  # fmt: skip


@st.composite
def cases(draw):
    case = draw(gen.option_case(opts=("header", "skip_rows", "conflict", "filters", "prec"), profiles=["num", "int", "int", "date", "date", "text", "bool", "mixed", "sparse"],
                                cols=st.one_of(*[st.lists(st.integers(0, 6), min_size=1, max_size=4, unique=True).map(sorted)] * 5, st.integers(5, 24).map(lambda n: list(range(n)))), min_rows=1, with_dates=False, custom=False, ser=False))  # fmt: skip
    if draw(st.integers(0, 2)) == 0:
        # names that occur twice
        case["names"] = [draw(st.sampled_from(["a", "b", "c"])) for _ in range(6)]
    profile = draw(st.sampled_from(["", "", "", "", "dates", "numbers"]))
    if profile:
        # columns of one kind, and types that keep only a part of what they hold
        vals = [44197.5, 44198.25, 0.5, 44197.0 + 1 / 86400, 44197.123456, 1.0, 60000.0, 25569.0] if profile == "dates" else [1.0, 1.5, -1.0, 300.0, 16777217.0, 2.0**53 + 2, 0.1, 70000.0]
        m = draw(st.integers(1, 2))
        vs = [draw(st.lists(st.sampled_from(vals), min_size=1, max_size=3)) for _ in range(m)]
        case["spec"]["xfs"] = [0, 2, 22]
        for k in ("fmts", "cls"):
            case["spec"].pop(k, None)
        case["spec"]["sheets"] = [{"name": "S", "rows": [{"cells": [{"c": j, "k": "n", "v": v[i], "s": 2 if profile == "dates" else 1} for j, v in enumerate(vs) if i < len(v)]} for i in range(3)]}]
        case["kw"] = {}
        pool = ["ts:s", "ts:s", "date32", "date64", "ts:us", "ts:ns", "time:s", "time:ms", "int64", "ts:s|UTC", "large_string"] if profile == "dates" else ["int64", "int32", "int8", "uint8", "float32", "float64", "ts:s", "dec:20,4", "dur:ms", "large_string", "uint64"]
        case["form"] = draw(st.sampled_from(["one", "one", "map", "list"]))
        case["pick"] = [draw(st.sampled_from(pool)) for _ in range(6)]
        case["mask"], case["off"] = [True] * 6, 0
        case.pop("names", None)
        return case
    form = draw(st.sampled_from(["one", "map", "map", "list", "list", "badlen"]))
    case["form"] = form
    case["pick"] = [draw(st.sampled_from(TYPES)) for _ in range(6)]
    case["mask"] = [draw(st.booleans()) for _ in range(6)]
    if draw(st.integers(0, 3)) == 0:
        # the same type everywhere
        case["pick"] = case["pick"][:1] * 6
        case["mask"] = [True] * 6
    case["off"] = draw(st.sampled_from([-1, 1, 2]))
    return case


def check(case):
    data, kw = wb.build(case["spec"]), dict(case["kw"])
    try:
        plain = rc.do_read(data, 0, kw)
        if case.get("names") and plain.num_columns <= 6:
            kw["header"] = case["names"][: plain.num_columns]
            plain = rc.do_read(data, 0, kw)
    except Exception:
        return "not readable", False
    rc.validate(plain)
    names, n = plain.column_names, plain.num_columns
    pick = [case["pick"][i % 6] for i in range(n)]
    mask = [case["mask"][i % 6] for i in range(n)]
    form = case["form"]
    if form == "one":
        dt, want = pick[0], [pick[0]] * n
    elif form == "map":
        dt = {nm: t for nm, t, m in zip(names, pick, mask) if m}
        dt["no such column"] = "int8"
        want = [dt.get(nm) for nm in names]
    else:
        # None stands for the type the column has anyway
        want = [t if m else str_type(plain.column(i).type) for i, (t, m) in enumerate(zip(pick, mask))]
        dt = list(want)
        if form == "badlen":
            dt = (dt + ["int64"] * 3)[: max(0, n + case["off"])]
    exp, bad = [], form == "badlen"
    for i, t in enumerate(want):
        col = plain.column(i)
        if t is not None:
            try:
                col = col.cast(rc.pa_type(t))
            except Exception:
                bad = True
        exp.append(col)
    try:
        got = rc.do_read(data, 0, {**kw, "dtypes": dt})
    except Exception as e:
        if not bad:
            raise Violation(f"dtypes {dt!r}: {rc.describe(e)}, but every column can be cast")
        return "rejected", True
    if bad:
        raise Violation(f"dtypes {dt!r}: returned {got.schema.types!r} instead of failing")
    if got.column_names != names:
        raise Violation(f"column names {got.column_names!r} instead of {names!r}")
    for i, t in enumerate(want):
        w = rc.pa_type(t) if t else plain.column(i).type
        if got.column(i).type != w:
            raise Violation(f"column {names[i]!r} has type {got.column(i).type} instead of {w}")
        if not got.column(i).equals(exp[i]) and str(got.column(i).to_pylist()) != str(exp[i].to_pylist()):
            raise Violation(f"column {names[i]!r}: {got.column(i).to_pylist()[:20]!r} instead of {exp[i].to_pylist()[:20]!r}")
    return form, any(t is not None and rc.pa_type(t) != plain.column(i).type for i, t in enumerate(want))


def str_type(t):
    return {"timestamp[ms]": "ts:ms", "double": "float64"}.get(str(t), str(t))


SUBS = [Sub("casts", check, lambda: gen.scaled(cases()), 4500, rule="non-trivial: a column changes its type, or a rejection")]
