"""Workbook objects: the cells of any sheet, in any order, as often as wanted."""
import io
import os
import struct
import threading
import time

from .common import *

RULE = (
    "Workbooks of one to four sheets, opened once; histories of complete, abandoned and interleaved iterations over their sheets with drawn row and column "
    "options. Oracle: the cells of the spec, in reading order, decoded independently."
)


@st.composite
def books(draw):
    spec, roles = draw(gen.base_spec(custom=False, max_sst=6))
    sheets = []
    n = draw(st.integers(1, 4))
    for i in range(n):
        cols = draw(gen.col_sets)
        rows = draw(gen.body_rows(spec, roles, cols, draw(st.integers(0, 6)), fmt=spec["fmt"]))
        rows = [dict(r) for r in draw(gen.empties(rows, 1))]
        if rows and draw(st.integers(0, 2)) == 0:
            rows[draw(st.integers(0, len(rows) - 1))]["gap"] = draw(st.integers(1, 4))
        sheets.append({"name": f"S{i}" if draw(st.booleans()) else ["Data", "Лист", "a&b", "0"][i], "rows": rows})
        if n > 1 and draw(st.integers(0, 6)) == 0:
            sheets[-1]["kind"] = "chartsheet"
    spec["sheets"] = sheets
    for k in draw(st.lists(st.sampled_from(["stored", "mixed", "members", "streamed"]), max_size=2, unique=True)):
        spec["ser"][k] = 1
    return spec


ITER = st.fixed_dictionaries({
    "op": st.just("iter"), "sheet": st.integers(0, 3), "by": st.sampled_from(["name", "pos"]),
    "stop": st.sampled_from([None, None, None, 0, 1, 2, 5]),
    "kw": st.fixed_dictionaries({}, optional={
        "skip_rows": st.integers(0, 5), "take_rows": st.integers(0, 6), "take_rows_non_empty": st.booleans(),
        "skip_cols": st.lists(st.sampled_from([0, 1, 2, 3, 26, 300]), max_size=2, unique=True),
    }),
})  # fmt: skip


@st.composite
def cases(draw):
    spec = draw(books())
    ops = draw(st.lists(st.one_of(ITER, ITER, st.fixed_dictionaries({"op": st.just("zip"), "a": ITER, "b": ITER}), st.just({"op": "sheets"}),
                                  st.just({"op": "bad"}), st.just({"op": "reopen"})), min_size=1, max_size=6))  # fmt: skip
    return {"spec": spec, "ops": ops, "nulls": draw(st.sampled_from([None, None, ["x", "a"]])), "file": draw(st.booleans())}


def want(spec, sheet, kw, nulls):
    """[(row, column, value)] in reading order."""
    kw = {"take_rows_non_empty": True, **kw}
    if nulls is not None:
        kw["null_values"] = nulls
    keep, skip = [], kw.get("skip_rows", 0)
    take, ne = kw.get("take_rows", 0), kw["take_rows_non_empty"]
    isnull = o.null_pred(kw)
    row = 0  # next row of the result
    for n, cells in wb.expand_rows(sheet["rows"]):
        if n < skip:
            continue
        if ne:
            row = n - skip
        if take and row > take:
            break
        vals, seen = [], set()
        for c in cells:
            if c["c"] in (kw.get("skip_cols") or []) or c["c"] in seen:
                continue
            v = o.cell_value(c, spec, isnull)
            if v is not None:
                vals.append((row, c["c"], v))
                seen.add(c["c"])
        keep += vals
        if vals or ne:
            row += 1
    return keep


def decode(c, book, binary):
    """The value of a cell, from its storage."""
    from rxls import constants as k

    v = c.val
    if c.xdt & k.TYPE_STRING:
        if c.xdt & k.REPR_SHARED:
            i = struct.unpack("<I", v)[0] if binary else int(v)
            return "S", book.shared[i].as_py()
        return "S", v if isinstance(v, str) else bytes(v).decode()
    kind = "T" if c.xdt & k.REPR_TEMPORAL else "N"
    if not binary:
        return kind, float(v)
    if c.xdt & k.REPR_BOOLEAN:
        return kind, float(v[0])
    if c.xdt & k.REPR_RKNUMBER:
        return kind, wb.rk_value(struct.unpack("<I", v)[0])
    return kind, struct.unpack("<d", v)[0]


def check(case):
    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook
    from .c19 import settled, state, work_tmp
    import shutil

    spec, nulls = case["spec"], case["nulls"]
    binary = spec["fmt"] == "xlsb"
    cls = XlsbWorkbook if binary else XlsxWorkbook
    ws = [s for s in spec["sheets"] if s.get("kind", "worksheet") == "worksheet"]
    data = wb.build(spec)
    tmp = work_tmp() if case["file"] else None
    hits = 0

    def make():
        if tmp:
            p = os.path.join(tmp, "b." + spec["fmt"])
            with open(p, "wb") as f:
                f.write(data)
            return cls(p, null_values=nulls)
        return cls(io.BytesIO(data), null_values=nulls)

    def start(book, op):
        i = op["sheet"] % max(len(ws), 1)
        sh = ws[i]
        return book.iter_worksheet(sh["name"] if op["by"] == "name" else i, **op["kw"]), want(spec, sh, op["kw"], nulls)

    def compare(got, exp, op, full=True):
        nonlocal hits
        got = [(c.row, c.col, decode(c, book, binary)) for c in got]
        exp = exp if full else exp[: len(got)]
        if got != exp:
            d = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            raise Violation(f"{op!r}: cell {d}: got {got[d : d + 3]!r}, expected {exp[d : d + 3]!r} ({len(got)} cells of {len(exp)})")
        hits += len(exp)

    try:
        s0 = state()
        book = make()
        for f in (lambda: book.sheets, lambda: book.shared, lambda: book.styles, lambda: next(iter(book.iter_worksheet(0)))):
            try:
                f()
            except Exception:
                continue
            raise Violation("a workbook that is not open answered")
        book.__enter__()
        s1 = state()
        for op in case["ops"]:
            if op["op"] == "reopen":
                book.__exit__(None, None, None)
                settled(s0, "leaving the workbook")
                book = make()
                book.__enter__()
                s1 = state()
            elif op["op"] == "sheets":
                if list(book.sheets) != [s["name"] for s in ws]:
                    raise Violation(f"sheets {list(book.sheets)!r} instead of {[s['name'] for s in ws]!r}")
            elif op["op"] == "bad":
                for x in (len(ws), -1, "no such sheet"):
                    try:
                        list(book.iter_worksheet(x))
                    except Exception:
                        continue
                    raise Violation(f"sheet {x!r} of {len(ws)} was read")
            elif not ws:
                continue
            elif op["op"] == "iter":
                it, exp = start(book, op)
                if op["stop"] is None:
                    compare(list(it), exp, op)
                else:
                    got = []
                    for c in it:
                        got.append(c)
                        if len(got) > op["stop"]:
                            break
                    # time for the reader to run ahead
                    time.sleep(case.get("wait", 0))
                    it.close()
                    compare(got, exp, op, False)
                    if len(got) < min(op["stop"] + 1, len(exp)):
                        raise Violation(f"{op!r}: {len(got)} cells of {len(exp)}")
                it = None
            else:
                (a, ea), (b, eb) = start(book, op["a"]), start(book, op["b"])
                ga, gb = [], []
                la = lb = True
                while la or lb:
                    if la:
                        x = next(a, None)
                        la = x is not None
                        ga += [x] if la else []
                    if lb:
                        x = next(b, None)
                        lb = x is not None
                        gb += [x] if lb else []
                compare(ga, ea, op["a"])
                compare(gb, eb, op["b"])
                a = b = None
            settled(s1, repr(op))
        book.__exit__(None, None, None)
        settled(s0, "leaving the workbook")
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return f"{spec['fmt']}/{len(ws)} sheets", hits >= 2


def large(tier):
    """Sheets of many thousands of cells, abandoned at various points."""
    sizes = [(3000, 1), (3, 9000), (40, 150), (600, 40)] + ([(70000, 1), (9000, 9)] if tier == "quick" else [(70000, 1), (140000, 1), (9000, 16), (300, 300), (30000, 8)])
    for fmt in ("xlsx", "xlsb"):
        for n, c in sizes:
            for stops in ([0, None], [5, 900, n * c - 2], [None, 0]):
                yield {"fmt": fmt, "rows": n, "cols": c, "stops": stops, "take": n // 2 if stops[0] == 5 else None}


def check_large(case):
    n, c = case["rows"], case["cols"]
    spec = {"fmt": case["fmt"], "sst": ["x"], "xfs": [0, 1], "ser": {}}
    cells = [{"c": j, "k": "t", "v": f"t{j}"} if j % 3 == 2 else {"c": j, "k": "s", "v": 0} if j % 3 else {"c": j, "k": "n", "v": float(j), "s": 1} for j in range(c)]
    spec["sheets"] = [{"name": "S0", "rows": [{"cells": cells}] * n}]
    ops = []
    for s in case["stops"]:
        kw = {"take_rows": case["take"]} if case["take"] and s is not None and s < 1000 else {}
        ops.append({"op": "iter", "sheet": 0, "by": "pos", "stop": s, "kw": kw})
    return check({"spec": spec, "ops": ops, "nulls": None, "file": False, "wait": 0.3})


SUBS = [
    Sub("workbooks", check, cases, 3000, rule="non-trivial: at least two cells compared"),
    Sub("large", check_large, enum=large, rule="sheets of thousands of cells, iterations abandoned early, late and never", hang_s=45),
]
