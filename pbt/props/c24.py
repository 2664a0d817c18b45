"""Equivalent files."""
import copy
import io
import os
import pathlib
import shutil
import tempfile

from .common import *

RULE = (
    "A drawn sheet with drawn options, written plainly and in drawn equivalent ways (XML spelling, unused elements and records, optional parts, style and string tables "
    "with unused or reordered entries, text storage, part names, archive layout), and given as path, path object or stream. Oracle: the tables are equal, and what the reference reader says."
)
KEYS = [*gen.SER_KEYS, "comment_text", "comment_in", "quote1", "spacey", "apply_nf", "no_decl", "dxf", "members", "streamed", "mixed", "zip_comment", "strict", "decoys"]
PARTS = ["worksheets/data{i}.{ext}", "{d}/Sheet_A-{i}.{ext}", "s{i}.{ext}", "./{d}/x{i}.{ext}", "{d}/../deep/er/{i}.{ext}", "../sheets/{i}.{ext}", "{d}/A%20b{i}.{ext}"]


@st.composite
def variants(draw, spec):
    ser = {k: 1 for k in draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=6, unique=True))}
    if draw(st.integers(0, 3)) == 0:
        ser["enc"] = draw(st.sampled_from(["UTF-16", "UTF-16BE"]))
        ser.pop("bom", None)
    if draw(st.integers(0, 2)) == 0:
        ser["part"] = draw(st.sampled_from(PARTS))
    if draw(st.integers(0, 3)) == 0:
        ser["rid_off"] = draw(st.sampled_from([2, 7, 1000]))
    if draw(st.integers(0, 4)) == 0:
        ser["rids"] = [draw(st.sampled_from(["R1", "rId9010", "_", "Ид1", "R0a9f3be17d2c4e55", "rid902"]))]
        ser["sheet_ids"] = [draw(st.sampled_from([1, 2, 99, 65535]))]
    if draw(st.integers(0, 3)) == 0:
        ser["noise"] = draw(st.integers(1, 2))
        if draw(st.booleans()):
            ser["noise_ids"] = draw(gen.noise_ids)
    if draw(st.integers(0, 3)) == 0:
        ser["esc_case"] = draw(st.integers(1, 3))
    if draw(st.integers(0, 3)) == 0:
        ser["counts"] = draw(st.integers(1, 3))
    if "decoys" in ser:
        ser["decoys"] = draw(st.integers(1, 2))
    ser["cellstylexfs"] = draw(st.sampled_from([1, 1, 2, 40]))
    tables = {}
    for k in ("sst_pad", "sst_rev", "sst_dup", "xf_pad", "xf_dup", "fmt_pad", "store", "num"):
        if draw(st.integers(0, 3)) == 0:
            tables[k] = draw(st.integers(1, 6))
    return {"ser": ser, "tables": tables}


@st.composite
def cases(draw):
    if draw(st.integers(0, 2)):
        case = draw(gen.sheet_case(max_rows=8, ser=False, gaps=True, sst_pool=st.one_of(gen.texts, gen.texts, gen.long_texts)).map(drop))
    else:
        case = draw(gen.option_case(max_rows=6, ser=False, min_rows=1))
    case["variants"] = draw(st.lists(variants(case["spec"]), min_size=1, max_size=2))
    case["via"] = draw(st.sampled_from(["stream", "stream", "stream", "str", "Path", "file", "raw", "moved", "spooled"]))
    return case


def spell(v, i):
    """A number as xsd:double spells it."""
    r = repr(float(v))
    m, _, e = r.partition("e")
    forms = [r, f"{float(v):.17g}", f"{float(v):.16e}", f"{float(v):.17E}", "+" + r if r[0] != "-" else r]
    if not e:
        forms += [m + "000" if "." in m else m, m + "E0", m + "e+00", m.rstrip("0") if "." in m else m]
        if m.startswith("0."):
            forms.append(m[1:])
        if m[0] != "-":
            forms.append("00" + m)
    return forms[i % len(forms)]


def rewrite(spec, v):
    """The same content, stored otherwise."""
    s = copy.deepcopy(spec)
    s["ser"] = dict(v["ser"])
    t = v["tables"]
    cells = [c for r in s["sheets"][0]["rows"] for c in r["cells"]]
    sst = s["sst"]
    if "sst_dup" in t:
        n = len(sst)
        s["sst"] = sst = sst + sst
        for i, c in enumerate(cells):
            if c["k"] == "s" and (i * t["sst_dup"]) % 3 == 1:
                c["v"] += n
    if "sst_rev" in t:
        n = len(sst)
        sst.reverse()
        for c in cells:
            if c["k"] == "s":
                c["v"] = n - 1 - c["v"]
    if "sst_pad" in t:
        pad = ["unused", "", "#N/A", "x"][: t["sst_pad"]]
        s["sst"] = sst = pad + sst + pad
        for c in cells:
            if c["k"] == "s":
                c["v"] += len(pad)
    if "store" in t:
        for i, c in enumerate(cells):
            if c["k"] in "sti" and (i + t["store"]) % 2:
                text = wb.sst_text(sst[c["v"]]) if c["k"] == "s" else c["v"]
                c.pop("runs", None)
                k = "tis"[(i // 2 + t["store"]) % 3]
                c["k"] = k
                if k == "s":
                    sst.append(text)
                    c["v"] = len(sst) - 1
                else:
                    c["v"] = text
    if "num" in t:
        for i, c in enumerate(cells):
            if c["k"] not in "nb":
                continue
            j = i * 7 + t["num"]
            if j % 3 == 0:
                c["f"] = not c.get("f")  # a constant, or the result of a formula
            if c["k"] == "b":
                continue
            if s["fmt"] == "xlsx":
                if "txt" not in c and o.style_class(s, c.get("s", 0)) != "U":
                    c["txt"] = spell(c["v"], j)
            elif "rk" in c:
                c["v"] = wb.rk_value(c.pop("rk"))
            elif repr(float(c["v"])) != "-0.0" and float(c["v"]).is_integer() and abs(c["v"]) < 2**29 and not c.get("f"):
                c["rk"] = gen.rk_of_int(int(c["v"]))
    if "fmt_pad" in t:
        for i, code in enumerate(["yyyy", "0.00", "[h]:mm", "#"][: t["fmt_pad"]]):
            s["fmts"] = {str(60001 + i): code, **s["fmts"]}
    if "xf_pad" in t:
        k = t["xf_pad"]
        s["xfs"] = s["xfs"][:1] + [14, 2, 0, 22, 4, 49][:k] + s["xfs"][1:]
        for c in cells:
            if c.get("s"):
                c["s"] += k
    if "xf_dup" in t:
        n = len(s["xfs"])
        s["xfs"] = s["xfs"] * 2
        for i, c in enumerate(cells):
            if "s" in c and (i + t["xf_dup"]) % 3 == 0:
                c["s"] += n
    return s


def outcome(data, case, via="stream"):
    tmp = None
    src, opened = data, None
    try:
        if via == "moved":
            src = io.BytesIO(data)
            src.seek(len(data) // 2)
        elif via == "spooled":
            src = opened = tempfile.SpooledTemporaryFile(len(data) // 2 * (len(data) % 3))
            src.write(data)
        elif via != "stream":
            from .c19 import work_tmp

            tmp = work_tmp()
            p = os.path.join(tmp, "книга 1." + case["spec"]["fmt"])
            with open(p, "wb") as f:
                f.write(data)
            if via in ("file", "raw"):
                src = opened = open(p, "rb", **({"buffering": 0} if via == "raw" else {}))
            else:
                src = p if via == "str" else pathlib.Path(p)
        try:
            return rc.do_read(src, case.get("sheet", 0), case.get("kw", {})), None
        except Exception as e:
            return None, e
    finally:
        if opened:
            opened.close()
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def check(case):
    spec, kw = case["spec"], case.get("kw", {})
    try:
        exp = o.expected(spec, kw, case.get("sheet", 0))
    except (o.Reject, o.Unspecified):
        exp = None
    base, err = outcome(wb.build(spec), case)
    if exp is not None and err is not None:
        raise Violation(f"read raised {rc.describe(err)}")
    for n, v in enumerate(case["variants"]):
        s = rewrite(spec, v)
        t, e = outcome(wb.build(s), case, case["via"] if n == 0 else "stream")
        what = f"stored plainly and with {sorted(v['ser'])} {v['tables']} via {case['via']}"
        if (err is None) != (e is None):
            raise Violation(f"{what}: {'read' if err is None else rc.describe(err)} and {'read' if e is None else rc.describe(e)}")
        if err is not None:
            continue
        rc.validate(t)
        if kw.get("conflict_resolve", "no") == "no":
            same_table(base, t, what)
        if exp is not None:
            m = exp.check(t)
            if m:
                raise Violation(f"{what}: {m}")
    label = f"{spec['fmt']}/{'table' if err is None else 'both raise'}"
    return label, err is None and base.num_rows * base.num_columns >= 2


SUBS = [Sub("variants", check, lambda: gen.scaled(cases()), 4500, rule="non-trivial: a table of at least two cells, read from the plain and at least one other file")]
