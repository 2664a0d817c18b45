"""Size thresholds."""
import copy

from .common import *

RULE = (
    "Sheets and tables whose sizes straddle the thresholds at which narrow counters, indices and buffers would overflow (127/128, 255/256, 4095/4096, 8191/8192, 16383/16384, "
    "32767/32768, 65535/65536 and the format limits). Oracles: the reference reader, and for repeated blocks the repeated table of the block."
)
EDGES = [127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193]
BIG = [65535, 65536, 65537, 70000]


# ---------------------------------------------------------------- a block repeated


@st.composite
def blocks(draw):
    case = draw(gen.sheet_case(max_rows=6, ser=False, with_dates=True).map(drop))
    n = max(1, sum(r.get("rep", 1) for r in case["spec"]["sheets"][0]["rows"]))
    case["times"] = draw(st.one_of(st.integers(2, 40), st.sampled_from(EDGES).map(lambda e: max(2, -(-e // n))), st.sampled_from(EDGES)))
    if case["times"] * n > 9000:
        case["times"] = 9000 // n
    case["kw"] = {"conflict_resolve": draw(st.sampled_from(["no", "no", "temporal", "numeric"])), "take_rows_non_empty": draw(st.sampled_from([False, False, True]))}
    return case


def repeat(spec, times):
    s = copy.deepcopy(spec)
    s["sheets"][0]["rows"] = s["sheets"][0]["rows"] * times
    return s


def tile(table, times):
    import pyarrow as pa

    return pa.concat_tables([table] * times).combine_chunks()


def equal(got, want, what):
    if got.column_names != want.column_names:
        raise Violation(f"{what}: column names {got.column_names!r} and {want.column_names!r}")
    if got.schema.types != want.schema.types:
        raise Violation(f"{what}: column types {got.schema.types!r} and {want.schema.types!r}")
    if got.num_rows != want.num_rows:
        raise Violation(f"{what}: {got.num_rows} rows, expected {want.num_rows}")
    for name, a, b in zip(got.column_names, got.columns, want.columns):
        if not a.equals(b):
            x, y = o.pylist(a), o.pylist(b)
            r = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q and not (p != p and q != q)), None)
            if r is not None:
                raise Violation(f"{what}: column {name!r} row {r}: {x[r]!r}, expected {y[r]!r}")


def repeat_check(case):
    spec, kw, k = case["spec"], case["kw"], case["times"]
    label = spec["fmt"]
    data = wb.build(spec)
    try:
        one = rc.do_read(data, 0, kw)
    except Exception as e:
        try:
            rc.do_read(wb.build(repeat(spec, k)), 0, kw)
        except Exception:
            return f"{label}/both raise", False
        raise Violation(f"the block alone: {rc.describe(e)}; {k} times: a table") from None
    many = rc.do_read(wb.build(repeat(spec, k)), 0, kw)
    rc.validate(many)
    if kw["take_rows_non_empty"]:
        # rows without values between the blocks are kept
        sheet = spec["sheets"][0]
        n = sum(r.get("rep", 1) for r in sheet["rows"])
        pad = n - one.num_rows
        import pyarrow as pa

        padded = pa.table([pa.concat_arrays([c.combine_chunks(), pa.nulls(pad, c.type)]) for c in one.columns], one.column_names) if pad else one
        want = tile(padded, k).slice(0, n * k - pad)
    else:
        want = tile(one, k)
    equal(many, want, f"a block of {one.num_rows} rows {k} times")
    n = want.num_rows
    return f"{label}/{'<256' if n < 256 else '<4096' if n < 4096 else '4096..'}", n > 127 and one.num_rows > 1


# ---------------------------------------------------------------- more rows than 16 bits count

ROW_KINDS = {
    "int": lambda i: {"k": "n", "v": float(i), "s": 1},
    "float": lambda i: {"k": "n", "v": i + 0.25, "s": 1},
    "lastfloat": lambda i: {"k": "n", "v": float(i), "s": 1},
    "date": lambda i: {"k": "n", "v": 30000.0 + i / 8, "s": 2},
    "text": lambda i: {"k": "i", "v": f"t{i}"},
    "shared": lambda i: {"k": "s", "v": i % 7},
    "sharedrun": lambda i: {"k": "s", "v": (i // 20000) % 7},
    "bool": lambda i: {"k": "b", "v": bool(i & 1), "s": 1},
    "late": lambda i: {"k": "n", "v": float(i), "s": 1} if i > 65540 else None,
    "early": lambda i: {"k": "i", "v": "top"} if i < 3 else None,
    "alternate": lambda i: [{"k": "n", "v": float(i), "s": 1}, {"k": "n", "v": 40000.0 + i % 999, "s": 2}, {"k": "i", "v": f"x{i}"}, None][i % 4],
    "numtext": lambda i: [{"k": "n", "v": float(i), "s": 1}, {"k": "i", "v": str(i)}][i % 2],
}


def tall_cases(tier):
    import itertools

    kinds = list(ROW_KINDS)
    for fmt, (i, n) in itertools.product(("xlsx", "xlsb"), enumerate(BIG)):
        yield {"fmt": fmt, "n": n, "cols": [kinds[(3 * i + j) % len(kinds)] for j in range(3)], "kw": {}}
    yield {"fmt": "xlsx", "n": 66000, "cols": ["late", "early", "int"], "kw": {"take_rows_non_empty": True}}
    yield {"fmt": "xlsb", "n": 66000, "cols": ["late", "alternate"], "kw": {"conflict_resolve": "all", "skip_rows": 65530}}
    yield {"fmt": "xlsx", "n": 66000, "cols": ["alternate", "numtext"], "kw": {"conflict_resolve": "numeric", "take_rows": 65537}}
    yield {"fmt": "xlsb", "n": 66000, "cols": ["numtext", "late"], "kw": {"conflict_resolve": "numeric", "row_filters": [1]}}
    yield {"fmt": "xlsx", "n": 66000, "cols": ["int", "late"], "kw": {"header": 1, "skip_rows": 65535, "row_filters": [0, 1], "row_filters_strategy": "and"}}
    yield {"fmt": "xlsb", "n": 66000, "cols": ["text", "late"], "kw": {"lookup_head": "^t65537$", "lookup_size": 70000, "header": 1}}
    if tier == "thorough":
        for fmt in ("xlsx", "xlsb"):
            for n in (131072, 262145, 1048576):
                yield {"fmt": fmt, "n": n, "cols": ["lastfloat", "sharedrun"], "kw": {}}
            for k in kinds:
                for n in BIG:
                    yield {"fmt": fmt, "n": n, "cols": [k], "kw": {"take_rows_non_empty": n % 2 == 0}}


def tall_check(case):
    n = case["n"]
    rows = []
    for i in range(n):
        cells = []
        for c, k in enumerate(case["cols"]):
            cell = ROW_KINDS[k](i)
            if k == "lastfloat" and i == n - 1:
                cell["v"] += 0.5
            if cell is not None:
                cells.append({"c": 25 * c, **cell})
        rows.append({"cells": cells})
    spec = {"fmt": case["fmt"], "sst": ["a", "b", "#N/A", "c", "", "dd", "é"], "xfs": [0, 1, 14], "sheets": [{"name": "S", "rows": rows}]}
    status, t = rc.check_read(case_of(spec, case["kw"]))
    return f"{case['fmt']}/{status}", t is not None


# ---------------------------------------------------------------- shared strings


@st.composite
def sst_cases(draw):
    n = draw(st.one_of(st.sampled_from(EDGES), st.sampled_from([16383, 16384, 16385, 32767, 32768, 32769]), st.sampled_from(BIG), st.integers(1, 3000)))
    near = [i for e in [0, *EDGES, 16384, 32767, 32768, 65535, 65536, 65537, n] for i in (e - 1, e, e + 1) if 0 <= i < n]
    idx = st.one_of(st.sampled_from(near), st.integers(0, n - 1))
    return {
        "fmt": draw(st.sampled_from(["xlsx", "xlsb"])), "n": n, "null_every": draw(st.sampled_from([0, 0, 2, 3, 100])), "dup": draw(st.sampled_from([0, 0, 5])),
        "rows": draw(st.lists(st.lists(idx, min_size=1, max_size=3), min_size=1, max_size=30)), "between": draw(st.booleans()),
    }  # fmt: skip


def sst_check(case):
    n, ne, dup = case["n"], case["null_every"], case["dup"]
    sst = [("#N/A" if i % (2 * ne) else "skip") if ne and i % ne == 1 else f"s{i // dup if dup else i}" for i in range(n)]
    rows = []
    for j, r in enumerate(case["rows"]):
        rows.append({"cells": [{"c": c, "k": "s", "v": i} for c, i in enumerate(r)]})
        if case["between"] and j % 3 == 2:
            rows.append({"cells": [{"c": 0, "k": "i", "v": f"inline {j}"}]})
    spec = {"fmt": case["fmt"], "sst": sst, "xfs": [0], "sheets": [{"name": "S", "rows": rows}]}
    status, t = rc.check_read(case_of(spec, {"null_values": ["skip"], "take_rows_non_empty": True}))
    return f"{case['fmt']}/{status}", t is not None and n > 127


# ---------------------------------------------------------------- styles


@st.composite
def style_cases(draw):
    n = draw(st.one_of(st.sampled_from(EDGES), st.sampled_from([16384, 32767, 32768, 32769, 65430]), st.integers(2, 2000)))
    nf = draw(st.sampled_from([0, 0, 3, 90, 300, 1200] if n < 3000 else [0, 0, 3, 40]))
    near = [i for e in [0, *EDGES, 16384, 32767, 32768, n] for i in (e - 1, e, e + 1) if 0 <= i < n]
    idx = st.one_of(st.sampled_from(near), st.integers(0, n - 1))
    return {
        "fmt": draw(st.sampled_from(["xlsx", "xlsb"])), "n": n, "nf": nf, "period": draw(st.sampled_from([2, 3, 5, 7, 97, 255, 256, 257])), "base": draw(st.sampled_from([1, 1, 40, 300])),
        "rows": draw(st.lists(st.lists(idx, min_size=1, max_size=4), min_size=1, max_size=12)),
    }  # fmt: skip


def style_check(case):
    n, nf, p = case["n"], case["nf"], case["period"]
    fmts, cls = {}, {}
    for i in range(nf):
        fmts[str(164 + i)], cls[str(164 + i)] = (("yyyy-mm-dd", "T"), ("0.00", "N"), ("#,##0.00", "N"))[i % 3]
    ids = [2, 14, 1, 22, *map(int, fmts)]
    xfs = [0] + [ids[(i // p + i) % len(ids)] if i % p else ids[i // p % len(ids)] for i in range(1, n)]
    rows = [{"cells": [{"c": c, "k": "n", "v": 40000.0 + r + c, "s": s} for c, s in enumerate(row)]} for r, row in enumerate(case["rows"])]
    spec = {"fmt": case["fmt"], "sst": ["a"], "xfs": xfs, "fmts": fmts, "cls": cls, "sheets": [{"name": "S", "rows": rows}], "ser": {"cellstylexfs": case["base"]}}
    status, t = rc.check_read(case_of(spec))
    return f"{case['fmt']}/{status}", t is not None and n > 127


# ---------------------------------------------------------------- texts and runs

UNITS = ["z", "é", "ж", "中", "😀", "ab ", "<&>", "\n"]


@st.composite
def text_cases(draw):
    n = draw(st.one_of(st.sampled_from([*EDGES, 16383, 16384, 32765, 32766, 32767]), st.integers(1, 32767)))
    return {
        "fmt": draw(st.sampled_from(["xlsx", "xlsb"])), "n": n, "unit": draw(st.sampled_from(UNITS)), "k": draw(st.sampled_from("sstti")), "copies": draw(st.integers(1, 4)),
        "runs": draw(st.sampled_from([0, 0, 0, 2, 50, 1000])), "ser": {k: 1 for k in draw(st.lists(st.sampled_from(["charref", "cdata", "comment_text", "stored"]), max_size=1))},
        "other": draw(st.booleans()),
    }  # fmt: skip


def text_check(case):
    u = case["unit"]
    width = len(u.encode("utf-16-le")) // 2
    rows, sst = [], ["first"]
    for i in range(case["copies"]):
        t = u * max(0, (case["n"] - 2) // width)
        t = "a" + t + "b" * (max(1, case["n"] - 1 - width * max(0, (case["n"] - 2) // width)))
        if i % 2:
            t = t[1:] or "b"
        cell = {"c": i % 2, "k": case["k"]}
        m = case["runs"]
        if case["k"] == "s":
            item = t
            if m and len(t) >= m:
                step = len(t) // m
                item = {"runs": [t[j * step:(j + 1) * step] if j < m - 1 else t[j * step:] for j in range(m)], "ph": "x" * 300 if i else None}
            sst.append(item)
            cell["v"] = len(sst) - 1
        else:
            cell["v"] = t
        rows.append({"cells": [cell]})
        if case["other"]:
            rows.append({"cells": [{"c": 0, "k": "s", "v": 0}, {"c": 1, "k": "n", "v": 2.0 + i, "s": 1}]})
    spec = {"fmt": case["fmt"], "sst": sst, "xfs": [0, 1], "sheets": [{"name": "S", "rows": rows}], "ser": case["ser"]}
    status, t = rc.check_read(case_of(spec))
    return f"{case['fmt']}/{status}", t is not None and case["n"] > 127


RUN_CELLS = {
    "n": lambda i: {"k": "n", "v": float(i), "s": 1}, "f": lambda i: {"k": "n", "v": i / 4 + 0.125, "s": 1}, "d": lambda i: {"k": "n", "v": 40000.0 + i % 5000, "s": 2},
    "s": lambda i: {"k": "s", "v": i % 5}, "t": lambda i: {"k": "t", "v": f"w{i}"}, "m": lambda i: {"k": "i", "v": str(i)}, "b": lambda i: {"k": "b", "v": i % 2 == 0, "s": 1},
    "r": lambda i: {"k": "n", "v": float(i), "rk": gen.rk_of_int(i), "s": 1}, "-": lambda i: None, "e": lambda i: {"k": "e", "v": "#N/A"},
}  # fmt: skip


@st.composite
def run_cases(draw):
    alphabet = draw(st.sampled_from(["nr", "nb", "rnfb", "nfd", "st", "stm", "nm", "rbm", "dm", "nds", "ndstmbr", "n", "s", "d", "t"])) + "-e"
    many = draw(st.booleans())
    if many:  # many short runs
        pattern = draw(st.lists(st.tuples(st.sampled_from(alphabet), st.integers(1, 3)), min_size=1, max_size=8))
        times = draw(st.sampled_from([100, 130, 260, 600, 1100]))
    else:  # few long ones
        pattern = draw(st.lists(st.tuples(st.sampled_from(alphabet), st.one_of(st.integers(1, 3), st.sampled_from([*EDGES[:9], 2000]))), min_size=1, max_size=5))
        times = 1
    kw = {"conflict_resolve": draw(st.sampled_from(["no", "temporal", "numeric", "all"])), "take_rows_non_empty": draw(st.booleans())}
    if draw(st.integers(0, 2)) == 0:
        kw["skip_rows"] = draw(st.sampled_from([1, 127, 128, 255, 256, 1000]))
    if draw(st.integers(0, 2)) == 0:
        kw["take_rows"] = draw(st.sampled_from([1, 127, 128, 255, 256, 1000]))
    return {"fmt": draw(st.sampled_from(["xlsx", "xlsb"])), "pattern": pattern, "times": times, "kw": kw, "second": draw(st.booleans()), "filter": draw(st.integers(0, 3)) == 0}


def run_check(case):
    rows, i = [], 0
    dts = {}
    for _ in range(case["times"]):
        for k, n in case["pattern"]:
            for _ in range(n):
                c = RUN_CELLS[k](i)
                cells = [] if c is None else [{"c": 1, **c}]
                if case["second"] and i % 130 != 77:
                    cells.append({"c": 3, "k": "n", "v": float(i), "s": 1})
                rows.append({"cells": cells})
                i += 1
    kw = dict(case["kw"])
    if case["filter"]:
        kw["row_filters"] = [0]
    spec = {"fmt": case["fmt"], "sst": ["a", "b", "#N/A", "c", "dd"], "xfs": [0, 1, 14], "dt": dts, "sheets": [{"name": "S", "rows": rows}]}
    status, t = rc.check_read(case_of(spec, kw))
    return f"{case['fmt']}/{status}", t is not None and i > 127


# ---------------------------------------------------------------- columns


def wide_cases(tier):
    for fmt in ("xlsx", "xlsb"):
        yield {"fmt": fmt, "n": 16384, "header": 0, "opt": {}}
        yield {"fmt": fmt, "n": 2000, "header": 1, "opt": {}}
        yield {"fmt": fmt, "n": 3000, "header": 0, "opt": {"skip_cols": list(range(0, 3000, 3))}}
        if tier == "thorough":
            yield {"fmt": fmt, "n": 16384, "header": 1, "opt": {}}
            yield {"fmt": fmt, "n": 700, "header": 2, "opt": {}}
            yield {"fmt": fmt, "n": 16384, "header": 0, "opt": {"skip_cols": list(range(255, 16384, 256))}}


def wide_check(case):
    n = case["n"]
    rows = [{"cells": [{"c": c, "k": "i", "v": f"h{c}" if r else f"g{c % 9}"} for c in range(n)]} for r in range(2 - case["header"], 2)]
    rows.append({"cells": [{"c": c, "k": "n", "v": float(c), "s": 1} for c in range(n)]})
    rows.append({"cells": [{"c": c, "k": "n", "v": 40000.0 + c, "s": 2 if c % 2 else 1} for c in range(0, n, 3)]})
    spec = {"fmt": case["fmt"], "sst": ["a"], "xfs": [0, 1, 14], "sheets": [{"name": "S", "rows": rows}]}
    status, t = rc.check_read(case_of(spec, {"header": case["header"], **case["opt"]}))
    return f"{case['fmt']}/{status}", t is not None


SUBS = [
    Sub("tall", tall_check, enum=tall_cases, rule="65535 to 70000 rows (to 1048576 in the thorough tier) of every kind of column, with options beyond row 65536"),
    Sub("wide", wide_check, enum=wide_cases, rule="up to all 16384 columns"),
    Sub("repeat", repeat_check, blocks, 700, factor=12, rule="a drawn block of rows repeated; non-trivial: more than 127 rows from a block of at least 2"),
    Sub("strings", sst_check, sst_cases, 400, factor=12, rule="shared tables to 70000 entries with null entries, cells pointing around the thresholds; non-trivial: more than 127 entries"),
    Sub("styles", style_check, style_cases, 320, factor=12, rule="up to 65430 cell styles and 1200 custom formats, cells using styles around the thresholds; non-trivial: more than 127 styles"),
    Sub("texts", text_check, text_cases, 800, factor=12, rule="texts to 32767 UTF-16 units, to 1000 runs; non-trivial: longer than 127"),
    Sub("runs", run_check, run_cases, 400, factor=12, rule="columns of few long or many short runs of kinds; non-trivial: more than 127 rows"),
]
