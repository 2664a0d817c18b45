"""Damaged and arbitrary files."""
import io
import re
import struct
import zipfile

from .common import *

RULE = (
    "Valid workbooks with drawn damage: to records (ids, sizes, fields), to XML (tags, attributes, texts, entities), to the bytes of parts, to the members and bytes of the archive; and arbitrary bytes. "
    "read must raise an exception or return a table that passes Arrow's full validation; crashes and hangs of the process are found by the runner."
)

NUMS = [0, 1, 2, 3, 7, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF]
TEXTS = [
    "", " ", "0", "-1", "1", "99", "4294967295", "4294967296", "99999999999999999999", "-0", "1e999", "-1e999", "NaN", "inf", "nan", "1_0", "0x10", "١٢", "1.", ".5", "+5",
    "A", "A0", "1A", "a1", "XFD1048576", "XFE1", "ZZZZZZZZZZ9", "É1", "$A$1", "A1:B2", "true", "s", "n", "b", "e", "d", "str", "inlineStr", "x", "é😀", "#N/A", "_xD800_", "_x0000_", "&#0;", "&lt;",
    "1" * 400, "9" * 5000, "A" * 3000, "rId1", "worksheet", "http://x/y/worksheet", "../../../../etc/passwd", "/", "", "xl/workbook.xml", "yyyy", "0.00", "[", "[[", "\"", "[h", ";", "\\", "\\\\d",
]  # fmt: skip

bite = st.fixed_dictionaries({"op": st.sampled_from(["flip", "flip", "del", "ins", "dup", "zero", "ff", "cut", "swap", "junk"]), "at": st.integers(0, 10**6), "n": st.integers(1, 40), "x": st.integers(0, 255)})
rec_bite = st.fixed_dictionaries({
    "op": st.sampled_from(["id", "field", "field", "field", "bits", "short", "short", "long", "drop", "dup", "swap", "size", "tail"]),
    "at": st.integers(0, 10**6), "n": st.integers(0, 40), "x": st.sampled_from(NUMS), "id": st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 62, 19, 44, 47, 156, 146, 35, 2000]),
})  # fmt: skip
xml_bite = st.fixed_dictionaries({
    "op": st.sampled_from(["attr", "attr", "attr", "attrname", "text", "text", "untag", "retag", "dup", "drop", "insert", "entity", "nest"]),
    "at": st.integers(0, 10**6), "to": st.integers(0, 10**6), "x": st.sampled_from(TEXTS), "tag": st.sampled_from(["c", "v", "t", "is", "r", "rPh", "row", "si", "sst", "xf", "cellXfs", "numFmt", "numFmts", "sheet", "Relationship", "z"]),
})  # fmt: skip


@st.composite
def damages(draw):
    if draw(st.integers(0, 2)):
        case = draw(gen.sheet_case(max_rows=6, max_sst=5).map(drop))
    else:
        case = draw(gen.option_case(max_rows=5, min_rows=1, max_pre=1))
    fmt = case["spec"]["fmt"]
    kind = draw(st.sampled_from(["structure"] * 6 + ["bytes", "bytes", "zip", "members"]))
    case["damage"] = kind
    case["part"] = draw(st.sampled_from(["sheet"] * 5 + ["sst", "sst", "styles", "styles", "workbook", "rels"]))
    if kind == "structure":
        case["bites"] = draw(st.lists(rec_bite if fmt == "xlsb" and case["part"] != "rels" else xml_bite, min_size=1, max_size=3))
    elif kind == "bytes":
        case["bites"] = draw(st.lists(bite, min_size=1, max_size=4))
    elif kind == "zip":
        case["bites"] = draw(st.lists(bite, min_size=1, max_size=3))
    else:
        case["bites"] = draw(st.lists(st.fixed_dictionaries({"op": st.sampled_from(["drop", "empty", "twice", "rename", "exchange", "dir"]), "at": st.integers(0, 50), "n": st.integers(0, 50)}), min_size=1, max_size=2))
    return case


def bite_bytes(d, b):
    if not d:
        return d
    p, n = b["at"] * len(d) // 1_000_001, b["n"]
    op = b["op"]
    if op == "flip":
        return d[:p] + bytes([d[p] ^ (b["x"] or 1)]) + d[p + 1 :]
    if op == "del":
        return d[:p] + d[p + n :]
    if op == "ins":
        return d[:p] + bytes([b["x"]]) * n + d[p:]
    if op == "dup":
        return d[: p + n] + d[p:]
    if op == "zero":
        return d[:p] + b"\x00" * n + d[p + n :]
    if op == "ff":
        return d[:p] + b"\xff" * n + d[p + n :]
    if op == "cut":
        return d[:p]
    if op == "swap":
        q = (p * 7 + b["x"] * 31) % len(d)
        p, q = min(p, q), max(p, q)
        return d[:p] + d[q : q + n] + d[p + n : q] + d[p : p + n] + d[q + n :]
    return d[:p] + bytes((b["x"] * 13 + i * i * 7) & 255 for i in range(n)) + d[p:]


def parse_recs(d):
    out, i = [], 0
    while i < len(d):
        rid = d[i]
        i += 1
        if rid & 0x80:
            rid = (rid & 0x7F) | d[i] << 7
            i += 1
        n = s = 0
        while True:
            x = d[i]
            i += 1
            n |= (x & 0x7F) << s
            s += 7
            if not x & 0x80:
                break
        out.append([rid, d[i : i + n], n, b""])
        i += n
    return out


def bite_recs(d, bites):
    recs = parse_recs(d)
    for b in bites:
        if not recs:
            break
        k = b["at"] % len(recs)
        r = recs[k]
        op, n, x = b["op"], b["n"], b["x"]
        data = r[1]
        if op == "id":
            r[0] = b["id"]
        elif op == "field" and len(data) >= 4:
            p = min(n // 4 * 4, len(data) - 4)
            r[1] = data[:p] + struct.pack("<I", x) + data[p + 4 :]
        elif op == "bits" and data:
            p = n % len(data)
            r[1] = data[:p] + bytes([data[p] ^ (x & 255 or 1)]) + data[p + 1 :]
        elif op == "short":
            r[1] = data[: n if n < len(data) else max(len(data) - 1, 0)]
            r[2] = len(r[1])
        elif op == "long":
            r[1] = data + bytes([x & 255]) * (n + 1)
            r[2] = len(r[1])
        elif op == "drop":
            del recs[k]
        elif op == "dup":
            recs[k:k] = [list(r) for _ in range(n + 1)]
        elif op == "swap":
            j = (k + n + 1) % len(recs)
            recs[k], recs[j] = recs[j], recs[k]
        elif op == "size":
            r[2] = x if x < 2**28 else r[2] + 1
        elif op == "tail":
            r[3] = bytes([x & 255]) * n
    return b"".join(wb.biff_id(i) + wb.biff_size(n) + x + t for i, x, n, t in recs)


TOK = re.compile(rb"<[^<>]*>")
ATTR = re.compile(rb"([\w:]+)(\s*=\s*)([\"'])(.*?)\3", re.S)


def bite_xml(d, bites):
    enc = "utf-8"
    if d[:2] in (b"\xff\xfe", b"\xfe\xff"):
        d = d.decode("utf-16").replace("UTF-16", "UTF-8").encode()
    for b in bites:
        tags = list(TOK.finditer(d))
        if not tags:
            break
        op = b["op"]
        x = b["x"].encode(enc)
        m = tags[b["at"] % len(tags)]
        if op in ("attr", "attrname"):
            ats = [a for a in ATTR.finditer(d) if not a.group(1).startswith(b"xmlns") or b["at"] % 9 == 0]
            if not ats:
                continue
            a = ats[b["at"] % len(ats)]
            if op == "attr":
                d = d[: a.start(4)] + x.replace(b"<", b"") .replace(b'"', b"&quot;") + d[a.end(4) :]
            else:
                d = d[: a.start(1)] + [b"zz", b"r", b"s", b"t", b"x:y"][b["to"] % 5] + d[a.end(1) :]
        elif op == "text":
            gaps = [(p.end(), q.start()) for p, q in zip(tags, tags[1:])]
            full = [g for g in gaps if g[0] < g[1]] or gaps
            if not full:
                continue
            s, e = full[b["at"] % len(full)]
            d = d[:s] + x.replace(b"<", b"&lt;") + d[e:]
        elif op == "untag" or op == "drop":
            q = tags[b["to"] % len(tags)] if op == "drop" else m
            s, e = min(m.start(), q.start()), max(m.end(), q.end())
            if op == "drop" and e - s > 400:
                s, e = m.start(), m.end()
            d = d[:s] + d[e:]
        elif op == "retag":
            name = re.match(rb"</?([\w:]+)", m.group())
            if name:
                # the element keeps its shape: every tag of that name changes, or this one
                if b["to"] % 3:
                    d = re.sub(rb"(</?)" + name[1] + rb"(?=[\s/>])", rb"\1" + b["tag"].encode(), d)
                else:
                    d = d[: m.start()] + m.group().replace(name[1], b["tag"].encode(), 1) + d[m.end() :]
        elif op == "dup":
            q = tags[b["to"] % len(tags)]
            s, e = min(m.start(), q.start()), max(m.end(), q.end())
            if e - s > 2000:
                s, e = m.start(), m.end()
            d = d[:e] + d[s:e] * (1 + b["to"] % 3) + d[e:]
        elif op == "insert":
            t = b["tag"].encode()
            body = x.replace(b"<", b"&lt;").replace(b"&#0;", b"")
            d = d[: m.end()] + b'<%s r="A1" t="s" s="0" Id="rId1" name="q" numFmtId="14" formatCode="d">%s</%s>' % (t, body, t) + d[m.end() :]
        elif op == "entity":
            p = d.find(b"?>") + 2 if d.startswith((b"<?", b"\xef\xbb\xbf<?")) else 0
            root = re.search(rb"<([A-Za-z]\w*)", d)
            name = root[1] if root else b"x"
            dtd = b'<!DOCTYPE %s [<!ENTITY a "aaaaaaaaaa"><!ENTITY b "&a;&a;&a;&a;&a;&a;"><!ENTITY e SYSTEM "file:///nonexistent">]>' % name
            d = d[:p] + dtd + d[p:]
            tags = list(TOK.finditer(d))
            q = tags[b["to"] % len(tags)]
            d = d[: q.end()] + [b"&b;", b"&e;", b"&nope;", b"&a;"][b["to"] % 4] + d[q.end() :]
        elif op == "nest":
            t = b["tag"].encode()
            k = 1 + b["to"] % 3000
            d = d[: m.end()] + b"<%s>" % t * k + x.replace(b"<", b"") .replace(b"&#0;", b"") + b"</%s>" % t * k + d[m.end() :]
    return d


def ruin(case):
    spec, kind = case["spec"], case["damage"]
    parts = wb.build_xlsx(spec) if spec["fmt"] == "xlsx" else wb.build_xlsb(spec)
    pre = {"sheet": "xl/worksheets/", "sst": "xl/sharedStrings", "styles": "xl/styles", "workbook": "xl/workbook.", "rels": "xl/_rels/"}[case["part"]]
    i = next((i for i, p in enumerate(parts) if p[0].startswith(pre)), len(parts) - 2)
    name, d = parts[i]
    if kind == "structure":
        d = bite_recs(d, case["bites"]) if name.endswith(".bin") else bite_xml(d, case["bites"])
        parts[i] = (name, d)
    elif kind == "bytes":
        for b in case["bites"]:
            d = bite_bytes(d, b)
        parts[i] = (name, d)
    elif kind == "members":
        for b in case["bites"]:
            k = b["at"] % len(parts)
            n, d = parts[k]
            j = b["n"] % len(parts)
            if b["op"] == "drop":
                del parts[k]
            elif b["op"] == "empty":
                parts[k] = (n, b"")
            elif b["op"] == "twice":
                parts.append((n, parts[j][1]))
            elif b["op"] == "rename":
                parts[k] = (n.upper() if b["n"] % 2 else n + "x", d)
            elif b["op"] == "exchange":
                parts[k], parts[j] = (n, parts[j][1]), (parts[j][0], d)
            else:
                parts[k] = (n + "/", b"")
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = wb.zip_parts(parts, spec.get("ser", {}))
    if kind == "zip":
        for b in case["bites"]:
            if b["at"] % 2:  # the end holds the directory
                b = dict(b, at=10**6 - b["at"] % 200_000)
            data = bite_bytes(data, b)
    return data


def try_read(data, sheet, kw):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            t = rc.do_read(data, sheet, kw)
        except Exception as e:
            return type(e).__name__
    rc.validate(t)
    return t


def check(case):
    data = ruin(case)
    t = try_read(data, case.get("sheet", 0), case.get("kw", {}))
    f = case["spec"]["fmt"]
    if isinstance(t, str):
        return f"{f}/{case['damage']}/raised", True
    return f"{f}/{case['damage']}/table", t.num_rows > 0


# ------------------------------------------------------------------------------------ arbitrary bytes

@st.composite
def blobs(draw):
    what = draw(st.sampled_from(["bytes", "zip", "sheet bytes", "sheet bytes", "sheet xml", "rels xml"]))
    b = draw(st.binary(max_size=200))
    frag = st.sampled_from(["<row>", "</row>", "<c>", "</c>", '<c r="B2" t="s">', '<c t="str">', '<c r="A1" s="1">', "<v>", "</v>", "<is>", "</is>", "<t>", "</t>", "<r>", "</r>", "<rPh>", "</rPh>", "1", "x", "0", "<v/>", "<row/>", "<!--", "-->", "<![CDATA[", "]]>", "&amp;", "&#1;", "&", "<", ">", " ", "<f>", "</f>", "<?x?>"])
    return {"what": what, "fmt": draw(st.sampled_from(["xlsx", "xlsb"])), "hex": b.hex(), "frags": draw(st.lists(frag, max_size=30)) if what.endswith("xml") else [], "wrap": draw(st.booleans())}


def check_blob(case):
    b = bytes.fromhex(case["hex"])
    what = case["what"]
    if what == "bytes":
        data = b
    elif what == "zip":
        data = b"PK\x03\x04" + b + b"PK\x05\x06" + b[:18].ljust(18, b"\x00")
    else:
        spec = {"fmt": case["fmt"], "sst": ["a", "b"], "xfs": [0, 2, 14], "sheets": [{"name": "S", "rows": []}]}
        if what.endswith("xml"):
            spec["fmt"] = "xlsx"
        parts = wb.build_xlsx(spec) if spec["fmt"] == "xlsx" else wb.build_xlsb(spec)
        target = "xl/_rels/" if what == "rels xml" else "xl/worksheets/"
        i = next(i for i, p in enumerate(parts) if p[0].startswith(target))
        if what == "sheet bytes":
            d = b
            if spec["fmt"] == "xlsb" and case["wrap"]:
                d = wb.rec(145) + wb.rec(0, b"\x00" * 17) + b + wb.rec(146)
        else:
            d = "".join(case["frags"])
            if case["wrap"]:
                d = f"<worksheet><sheetData>{d}</sheetData></worksheet>"
            d = d.encode()
        parts[i] = (parts[i][0], d)
        data = wb.zip_parts(parts, {})
    t = try_read(data, 0, {})
    return f"{what}/{'raised' if isinstance(t, str) else 'table'}", bool(b) or bool(case["frags"])


def bombs(tier):
    for k in (3, 6, 9):
        yield {"bomb": "entities", "k": k}
    for k in (10, 1000, 100_000):
        yield {"bomb": "depth", "k": k}
        yield {"bomb": "cells in cells", "k": k}
        yield {"bomb": "columns", "k": k}
    yield {"bomb": "quadratic", "k": 2000}


def check_bomb(case):
    k = case["k"]
    spec = {"fmt": "xlsx", "sst": ["a"], "xfs": [0], "sheets": [{"name": "S", "rows": []}]}
    parts = wb.build_xlsx(spec)
    i = next(i for i, p in enumerate(parts) if p[0].startswith("xl/worksheets/"))
    cell = '<c r="A1" t="str"><v>{}</v></c>'
    if case["bomb"] == "entities":
        dtd = '<!DOCTYPE w [<!ENTITY a0 "lol">' + "".join(f'<!ENTITY a{j} "{f"&a{j - 1};" * 10}">' for j in range(1, k + 1)) + "]>"
        d = f"{dtd}<w><row>{cell.format(f'&a{k};')}</row></w>"
    elif case["bomb"] == "quadratic":
        d = f'<!DOCTYPE w [<!ENTITY a "{"x" * 50_000}">]><w><row>{cell.format("&a;" * k)}</row></w>'
    elif case["bomb"] == "depth":
        d = "<w>" + "<a>" * k + "</a>" * k + f"<row>{cell.format('x')}</row></w>"
    elif case["bomb"] == "cells in cells":
        d = "<w><row>" + "<c>" * k + "<v>x</v>" + "</c>" * k + "</row></w>"
    else:
        d = "<w><row>" + "".join(f'<c r="{"A" * (j % 7 + 1)}1" t="str"><v>x</v></c>' for j in range(min(k, 5000))) + f'<c r="{"Z" * min(k, 5000)}1" t="str"><v>x</v></c></row></w>'
    parts[i] = (parts[i][0], d.encode())
    t = try_read(wb.zip_parts(parts, {}), 0, {})
    return f"{case['bomb']}/{'raised' if isinstance(t, str) else 'table'}", True


SUBS = [
    Sub("damage", check, damages, 7000, rule="non-trivial: the damaged file was rejected, or read to a table with rows", hang_s=45),
    Sub("arbitrary", check_blob, blobs, 2500, rule="non-trivial: not the empty file", hang_s=45),
    Sub("bombs", check_bomb, enum=bombs, rule="files built to exhaust parsers", hang_s=60),
]
