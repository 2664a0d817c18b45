"""Sheet selection."""
import os
import pathlib
import shutil
import unicodedata

from .common import *

RULE = "Workbooks of several worksheets and chartsheets with drawn names, part numbering, relationship ids, order and targets; each sheet holds its own marker."
SNAMES = ["Sheet1", "Sheet2", "Data", "data", "Лист1", "a&b", "x<y", "O'Brien", "1", "0", "2021", " lead", "trail ", "trail", "Data ", "e\u0301", "😀", "Q\"uote", "sheet1", "very long sheet name 31 charact.", "A B", "#N/A", "rId1"]

# ids that are parts, prefixes, other cases or other spellings of each other, or of the ids of the other parts
RIDS = ["rId1", "rId10", "rId11", "rId01", "rid1", "RID1", "rId", "Id1", "R1", "R11", "r1", "rId9", "rId90", "rId9000", "xrId901", "_1", "_11", "Ид1", "Ид11", "R0a9f3be17d2c4e55", "R0a9f3be17d2c4e5", "sheet1", "styles", "xrId1", "_rId1", "xxrId1", "rId1x", "ArId10", "rId2", "rId2.", "brId2"]


@st.composite
def cases(draw, bad=True):
    fmt = draw(st.sampled_from(["xlsx", "xlsb"]))
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 14)))
    names = draw(st.lists(st.one_of(st.sampled_from(SNAMES), gen.texts.filter(lambda s: len(s) < 32 and not set(s) & set("\r\n\t") and "_x" not in s and all(ord(c) > 31 for c in s))),
                          min_size=n, max_size=n, unique=True))  # fmt: skip
    sheets = []
    for i, nm in enumerate(names):
        kind = draw(st.sampled_from(["chartsheet", "chartsheet", "dialogsheet", "macrosheet"])) if n > 1 and draw(st.integers(0, 4)) == 0 else "worksheet"
        sh = {"name": nm, "kind": kind, "rows": [{"cells": [{"c": 0, "k": "i", "v": f"marker {i}"}, {"c": i + 1, "k": "n", "v": float(i), "s": 1}]}] * (i % 3 + 1)}
        if draw(st.booleans()):
            sh["hidden"] = draw(st.sampled_from([0, 1, 2]))
        sheets.append(sh)
    ser = {}
    for k in draw(st.lists(st.sampled_from(["abs_target", "rels_rev", "rels_first", "file_rev", "attr_rev", "zip_rev", "junk", "vendor", "no_sst", "stored"]), max_size=5, unique=True)):
        ser[k] = 1
    if draw(st.integers(0, 3)) == 0:
        ser["dots"] = draw(st.integers(1, 3))
    if draw(st.booleans()):
        ser["rid_off"] = draw(st.sampled_from([1, 2, 5, 10, 100]))
    if draw(st.integers(0, 2)) == 0:
        ser["rids"] = draw(st.lists(st.one_of(st.sampled_from(RIDS), st.from_regex(r"[A-Za-z_][A-Za-z0-9._-]{0,12}", fullmatch=True)), min_size=n, max_size=n, unique=True).filter(lambda x: not {"rId900", "rId901", "rId902"} & set(x)))
    elif draw(st.integers(0, 3)) == 0:
        # every id the beginning or the end of the next
        ids = ["rId2"]
        for _ in range(n - 1):
            ids.append(draw(st.sampled_from(["{}1", "{}0", "x{}", "r{}", "{}_"])).format(ids[-1]))
        ser["rids"] = draw(st.permutations(ids))
    if draw(st.integers(0, 2)) == 0:
        ser["perm"] = draw(st.permutations(range(n)))
    if draw(st.integers(0, 2)) == 0:
        ser["sheet_ids"] = draw(st.lists(st.integers(1, 65534), min_size=n, max_size=n, unique=True))
    spec = {"fmt": fmt, "sst": [] if "no_sst" in ser else ["a"], "xfs": [0, 1], "sheets": sheets, "ser": ser}
    ws = [s["name"] for s in sheets if s["kind"] == "worksheet"]
    form = draw(st.integers(0, 4))
    if form == 0 and ws and draw(st.booleans()):
        # a name that is nearly that of a sheet
        nm = draw(st.sampled_from(ws))
        f = draw(st.sampled_from([str.upper, str.lower, str.swapcase, str.title, str.casefold, str.strip, lambda s: s + " ", lambda s: " " + s, lambda s: s[:-1], lambda s: s[1:], lambda s: s + "1", lambda s: s * 2,
                                  lambda s: unicodedata.normalize("NFC", s), lambda s: unicodedata.normalize("NFD", s), lambda s: s.replace("&", "&amp;"), lambda s: f"'{s}'", lambda s: s + "!", lambda s: s + "\0", lambda s: s.replace(" ", "_")]))  # fmt: skip
        which = f(nm)
    elif form == 0:
        which = draw(st.sampled_from([len(ws), len(ws) + 3, -1, -2, "no such sheet", "", "sheet", *[s["name"] for s in sheets if s["kind"] != "worksheet"]]))
    elif form <= 2 and ws:
        which = draw(st.sampled_from(ws))
    else:
        which = draw(st.integers(0, max(len(ws) - 1, 0)))
    return case_of(spec, {}, which)


NAMES = ["book.xlsx", "book.xlsb", "book", "BOOK.XLSX", "book.xlsb.xlsx", "book.xml", "book.bin", "xlsb", "книга.xlsm", "~$book.xlsx", "a b;1.xlsx"]


def one_path():
    return st.fixed_dictionaries({"name": st.sampled_from(NAMES), "as": st.sampled_from([str, pathlib.Path]).map(lambda x: x.__name__), "books": st.lists(cases(), min_size=2, max_size=3)})


def check_path(case):
    """Workbooks read by a path that says nothing of them, one after another."""
    from .c19 import work_tmp

    tmp = work_tmp()
    seen = []
    try:
        path = os.path.join(tmp, case["name"])
        for i, c in enumerate(case["books"]):
            def at_path(data, sheet, kw):
                with open(path, "wb") as f:
                    f.write(data)
                return rc.do_read(pathlib.Path(path) if case["as"] == "Path" else path, sheet, kw)

            seen.append(rc.check_read(c, at_path)[0])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return "/".join(seen), seen.count("table") > 0 and len(seen) > 1


def not_workbooks(tier):
    import io

    for kind in ("empty zip", "text", "nothing", "ods", "only content types", "wrong folder", "truncated"):
        yield {"file": kind}


def check_not(case):
    import io
    import zipfile

    kind = case["file"]
    buf = io.BytesIO()
    if kind == "text":
        buf.write(b"a;b;c\n1;2;3\n")
    elif kind == "truncated":
        d = wb.build({"fmt": "xlsx", "sst": ["a"], "xfs": [0], "sheets": [{"name": "S", "rows": [{"cells": [{"c": 0, "k": "i", "v": "x"}]}]}]})
        buf.write(d[: len(d) - 30])
    elif kind != "nothing":
        with zipfile.ZipFile(buf, "w") as z:
            if kind == "ods":
                z.writestr("content.xml", "<x/>")
                z.writestr("mimetype", "application/vnd.oasis.opendocument.spreadsheet")
            elif kind == "only content types":
                z.writestr("[Content_Types].xml", "<Types/>")
            elif kind == "wrong folder":
                z.writestr("workbook.xml", "<workbook/>")
                z.writestr("xl/worksheets/sheet1.xml", "<worksheet><sheetData/></worksheet>")
    try:
        t = rc.do_read(buf.getvalue(), 0, {})
    except Exception:
        return "rejected", True
    raise Violation(f"{kind}: read returned {t!r:.200}")


def sel(case, status, table):
    return status == "rejected" or status == "table" and len(case["spec"]["sheets"]) > 1


SUBS = [
    read_sub("workbooks", cases, 4000, rule="non-trivial: rejected, or one of several sheets read", nontrivial=sel),
    Sub("paths", check_path, one_path, 300, rule="non-trivial: two or more workbooks at the path, one or more of them read"),
    Sub("foreign", check_not, enum=not_workbooks, rule="files that are no workbooks"),
]
