"""Independent writers for XLSX and XLSB workbooks.

A workbook is a plain JSON value (see DESIGN.md, "Workbook specs"), so that every generated case can
be written out as a replay file.  Nothing here imports rxls: the writers follow ECMA-376 and
[MS-XLSB] and are the independent half of every end-to-end check.

spec = {
  "fmt": "xlsx" | "xlsb",
  "sheets": [{"name": str, "rows": [row], "kind": "worksheet"|"chartsheet"}],
  "sst": [item],            item = str | {"runs": [str], "ph": str|None}
  "xfs": [numFmtId],        cell style i uses number format xfs[i]
  "fmts": {"164": code},    custom number formats
  "ser": {...}              serialisation choices; none of them changes the meaning of the file
}
row  = {"cells": [cell], "gap": n omitted rows before it, "rep": n copies}
cell = {"c": column, "k": kind, "v": value, "s": style, ...}
kinds: n number | b boolean | e error | s shared string (v = index) | t formula string |
       i inline string | z blank (styled, no value)
"""
from __future__ import annotations

import io
import re
import struct
import zipfile
from xml.sax.saxutils import escape, quoteattr

MAIN = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
REL = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
PKG = "http://schemas.openxmlformats.org/package/2006/relationships"
CT = "http://schemas.openxmlformats.org/package/2006/content-types"
STRICT = {MAIN: "http://purl.oclc.org/ooxml/spreadsheetml/main", REL: "http://purl.oclc.org/ooxml/officeDocument/relationships"}


def col_name(c: int) -> str:
    s = ""
    c += 1
    while c:
        c, r = divmod(c - 1, 26)
        s = chr(65 + r) + s
    return s


def expand_rows(rows):
    """Yields (sheet row number, cells) for every row element of the sheet."""
    n = 0
    for r in rows:
        n += r.get("gap", 0)
        for _ in range(r.get("rep", 1)):
            yield n, r["cells"]
            n += 1


def num_text(cell) -> str:
    """The text of a number in an XLSX file."""
    v = cell["v"]
    if "txt" in cell:
        return cell["txt"]
    if isinstance(v, bool):
        return "1" if v else "0"
    if float(v).is_integer() and abs(v) < 1e15:
        return "-0" if str(float(v)) == "-0.0" else str(int(v))
    return repr(float(v)).replace("e", "E")


def sst_text(item) -> str:
    return item if isinstance(item, str) else "".join(item["runs"])


_ESC = re.compile(r"[\x00-\x08\x0b\x0c\x0e-\x1f]|_(?=x[0-9A-Fa-f]{4}_)")


def xml_text(s: str, ser: dict) -> str:
    # ST_Xstring: characters XML cannot hold, and text that looks like an escape
    case = ser.get("esc_case", 0)

    def esc(m):
        h = f"{ord(m[0]):04X}"
        if case:  # hexadecimal digits of either case
            h = h.lower() if case == 1 else "".join(x.lower() if (i + case) % 2 else x for i, x in enumerate(h))
        return f"_x{h}_"

    s = _ESC.sub(esc, s)
    if ser.get("esc_ws"):
        s = s.replace("\r", "_x000D_").replace("\n", "_x000a_")
        if case:  # any character may be written so
            s = re.sub("[éßЖ中ﬁ٣/]", esc, s)
    if ser.get("comment_text") and len(s) > 1:
        return _xml_text(s[:1], ser) + "<!-- c --><?p i?>" + _xml_text(s[1:], ser)
    return _xml_text(s, ser)


def _xml_text(s: str, ser: dict) -> str:
    if ser.get("charref"):
        return "".join(f"&#{ord(ch)};" if (i % 3 == 1 or ch in "<>&\r") else escape(ch) for i, ch in enumerate(s))
    if ser.get("cdata") and "]]>" not in s and "\r" not in s and s:
        return f"<![CDATA[{s}]]>"
    return escape(s, {"\r": "&#13;"})


def _space(s: str) -> str:
    return ' xml:space="preserve"' if s != s.strip() or "\n" in s else ""


# --------------------------------------------------------------------------------------- XLSX


def xlsx_sst(spec) -> str:
    ser = spec.get("ser", {})
    nl = "\n " if ser.get("pretty") else ""
    n = len(spec["sst"])
    refs = sum(c["k"] == "s" for sh in spec["sheets"] for r in sh["rows"] for c in r["cells"])
    out = [f'<sst xmlns="{MAIN}" count="{n}" uniqueCount="{n}">', f'<sst xmlns="{MAIN}">', f'<sst xmlns="{MAIN}" count="{n * 3 + 7}" uniqueCount="{n}">', f'<sst xmlns="{MAIN}" count="{refs}" uniqueCount="{n}">'][ser.get("counts", 0) :][:1]
    for it in spec["sst"]:
        if isinstance(it, str):
            if it == "" and ser.get("si_empty"):
                out.append(nl + "<si/>")
            elif it == "":
                out.append(nl + "<si><t/></si>")
            else:
                com = "<!-- <t>z</t> -->" if ser.get("comment_in") else ""
                out.append(f"{nl}{com}<si>{com}{nl}<t{_space(it)}>{xml_text(it, ser)}</t>{nl}{com}</si>")
        else:
            o = [nl + "<si>"]
            for i, r in enumerate(it["runs"]):
                pr = '<rPr><b/><sz val="11"/><color rgb="FFFF0000"/></rPr>' if i % 2 else ""
                o.append(f"{nl}<r>{pr}<t{_space(r)}>{xml_text(r, ser)}</t></r>")
            if it.get("ph"):
                o.append(f'{nl}<rPh sb="0" eb="1"><t>{xml_text(it["ph"], ser)}</t></rPh><phoneticPr fontId="1"/>')
            o.append(nl + "</si>")
            out.append("".join(o))
    out.append("</sst>")
    return "".join(out)


def xlsx_styles(spec) -> str:
    more = VENDOR if spec.get("ser", {}).get("vendor") else ""
    o = [f'<styleSheet xmlns="{MAIN}"{more}>']
    if spec.get("fmts"):
        o.append(f'<numFmts count="{len(spec["fmts"])}">')
        for fid, code in spec["fmts"].items():
            o.append(f'<numFmt numFmtId="{fid}" formatCode={quoteattr(code)}/>')
        o.append("</numFmts>")
    o.append('<fonts count="1"><font><sz val="11"/></font></fonts>')
    o.append('<fills count="1"><fill><patternFill patternType="none"/></fill></fills>')
    o.append("<borders count=\"1\"><border/></borders>")
    ncsx = spec.get("ser", {}).get("cellstylexfs", 1)
    o.append(f'<cellStyleXfs count="{ncsx}">')
    o += ['<xf numFmtId="14" fontId="0" fillId="0" borderId="0"/>' if i else '<xf numFmtId="0" fontId="0" fillId="0" borderId="0"/>' for i in range(ncsx)]
    o.append("</cellStyleXfs>")
    o.append(f'<cellXfs count="{len(spec["xfs"])}">')
    bare = spec.get("ser", {}).get("bare_xf")
    for fid in spec["xfs"]:
        if bare:
            o.append(f'<xf numFmtId="{fid}"/>' if fid else "<xf/>")
        else:
            apply = ("1", "0", "true")[spec.get("ser", {}).get("apply_nf", 0) % 3]
            o.append("<xf" + (' xr:numFmtId="14"' if more else "") + f' numFmtId="{fid}" fontId="0" fillId="0" borderId="0" xfId="0" applyNumberFormat="{apply}"' + (' x14ac:numFmtId="14" pivotButton="0" quotePrefix="0"><alignment horizontal="left" xr:id="1"/><protection locked="0"/></xf>' if more else "/>"))
    o.append("</cellXfs>")
    o.append('<cellStyles count="1"><cellStyle name="Normal" xfId="0" builtinId="0"/></cellStyles>')
    if spec.get("ser", {}).get("dxf"):
        # formats of conditional formatting; their ids are their own
        ids = [*spec.get("fmts", {}), "0", "1", "14", "164", "165"]
        o.append(f'<dxfs count="{len(ids)}">')
        for j, fid in enumerate(dict.fromkeys(ids)):
            o.append(f'<dxf><font><b/></font><numFmt numFmtId="{fid}" formatCode="{["0.00", "yyyy", "@"][j % 3]}"/></dxf>')
        o.append("</dxfs><tableStyles/>")
    o.append("</styleSheet>")
    if spec.get("ser", {}).get("counts") == 1:  # counts are optional
        o = [re.sub(r'^(<\w+) count="\d+"', r"\1", x) for x in o]
    return "".join(o)


FORMULAS = ["<f>A1+1</f>", '<f t="shared" ref="A1:A9" si="0">B1&amp;"v"</f>', '<f t="shared" si="0"/>', '<f t="array" ref="A1:A1" ca="1">SUM(1,2)</f>', '<f t="dataTable" ref="A1:A2" dt2D="1" r1="B1"/>', "<f/>", "<f></f>"]


def xlsx_cell(cell, rown, spec, prev=None) -> str:
    ser = spec.get("ser", {})
    k = cell["k"]
    at = [("r", f"{col_name(cell['c'])}{rown + 1}")]
    if ser.get("no_c_r") and cell["c"] == (0 if prev is None else prev + 1):
        at = []
    if cell.get("s") or ser.get("explicit_s"):
        at.append(("s", str(cell.get("s", 0))))
    body = ""
    f = FORMULAS[(rown + cell["c"] if ser.get("junk") or ser.get("formulas") else 0) % len(FORMULAS)] if cell.get("f") else ""
    sp = " \n " if ser.get("vspace") else ""
    if k == "n":
        if ser.get("tn"):
            at.append(("t", "n"))
        body = f"{f}<v>{sp}{num_text(cell)}{sp}</v>"
    elif k == "b":
        at.append(("t", "b"))
        body = f"{f}<v>{1 if cell['v'] else 0}</v>"
    elif k == "e":
        at.append(("t", "e"))
        body = f"{f}<v>{cell['v']}</v>"
    elif k == "s":
        at.append(("t", "s"))
        body = f"<v>{sp}{cell['v']}{sp}</v>"
    elif k == "t":
        at.append(("t", "str"))
        body = f"{FORMULAS[(rown + cell['c']) % len(FORMULAS)] if ser.get('formulas') else '<f>A1&amp;x</f>'}<v{_space(cell['v'])}>{xml_text(cell['v'], ser)}</v>"
    elif k == "i":
        at.append(("t", "inlineStr"))
        v = cell["v"]
        runs = cell.get("runs")
        if runs:
            ph = '<rPh sb="0" eb="1"><t>zz</t></rPh>' if cell.get("ph") else ""
            body = "<is>" + "".join(f"<r><t{_space(r)}>{xml_text(r, ser)}</t></r>" for r in runs) + ph + "</is>"
        else:
            body = f"<is><t{_space(v)}>{xml_text(v, ser)}</t></is>"
    elif k == "z" and cell.get("f"):
        # a formula that was never computed
        body = f + ("", "<v></v>", "<v/>")[cell["f"] % 3]
    if ser.get("attr_rev"):
        at.reverse()
    if ser.get("vendor"):
        at += [("x14ac:t", "e"), ("xr:r", "B9"), ("xr:s", "99")]
    if ser.get("extra_attrs"):
        at += [("cm", "1"), ("vm", "1"), ("ph", "1")]
    q = "'" if ser.get("quote1") else '"'
    gap, eq = ("\n  ", " = ") if ser.get("spacey") else (" ", "=")
    a = gap.join(f"{n}{eq}{q}{v}{q}" for n, v in at)
    nl = "\n   " if ser.get("pretty") else ""
    if body and ser.get("cell_ext"):
        body += '<extLst><ext uri="{A}" xmlns:x14="urn:x14"><x14:v>77</x14:v><x14:is><x14:t>t</x14:t></x14:is></ext></extLst>'
    if body and ser.get("pretty"):
        body = body.replace("<v", nl + " <v", 1).replace("<is>", nl + " <is>", 1) + nl
    if ser.get("comment_in"):
        nl += "<!-- <c r='A1'><v>9</v></c> -->"
        body = body and "<!-- <v>9</v> -->" + body + "<?p i?>"
    a = a and " " + a
    end = " >" if ser.get("spacey") else ">"
    if not body:
        return f"{nl}<c{a}></c{end}" if ser.get("row_long") else f"{nl}<c{a}/>"
    return f"{nl}<c{a}{end}{body}</c{end}"


# what today's writers add to the root elements
VENDOR = ' xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006" mc:Ignorable="x14ac xr" xmlns:x14ac="http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac" xmlns:xr="http://schemas.microsoft.com/office/spreadsheetml/2014/revision" xr:uid="{00000000-0001-0000-0000-000000000000}"'


def xlsx_sheet(sheet, spec) -> str:
    ser = spec.get("ser", {})
    nl = "\n  " if ser.get("pretty") else ""
    more = VENDOR if ser.get("vendor") else ""
    o = [f'<worksheet xmlns="{MAIN}" xmlns:r="{REL}"{more}>']
    if ser.get("junk"):
        o.append('<sheetPr><pageSetUpPr fitToPage="1"/></sheetPr><dimension ref="A1:C9"/>')
        o.append('<sheetViews><sheetView workbookViewId="0"><pane ySplit="1" topLeftCell="A2"/></sheetView></sheetViews>')
        o.append('<sheetFormatPr defaultRowHeight="15"/><cols><col min="1" max="3" width="9"/><col min="4" max="9" width="0" hidden="1" style="1"/></cols>')
    o.append("<sheetData>")
    # rows after a gap need their number
    no_row_r = ser.get("no_row_r") and not any(r.get("gap") for r in sheet["rows"])
    for n, cells in expand_rows(sheet["rows"]):
        at = "" if no_row_r else f' r="{n + 1}"'
        if ser.get("comment_in"):
            o.append("<?row?><!-- <row/> -->")
        if more:
            at += ' x14ac:dyDescent="0.25" x14ac:r="7" xr:s="2"'
        if ser.get("junk"):
            at += ' spans="1:5" ht="15" customHeight="1"'
            # what is said of a row is not said of its cells
            at += ("", f' s="{n % len(spec["xfs"])}" customFormat="1"', ' hidden="1"', ' outlineLevel="1" collapsed="1"', ' thickBot="1" ph="1"')[n * 3 % 5]
        if not cells and not ser.get("row_long"):
            o.append(f"{nl}<row{at}/>")
            continue
        o.append(f"{nl}<row{at}>")
        prev = None
        for c in cells:
            o.append(xlsx_cell(c, n, spec, prev))
            prev = c["c"]
        o.append(f"{nl}</row>")
    o.append("</sheetData>")
    if ser.get("junk"):
        o.append('<autoFilter ref="A1:C1"/><mergeCells count="1"><mergeCell ref="A1:B1"/></mergeCells>')
        o.append('<conditionalFormatting sqref="A1"><cfRule type="expression" dxfId="0" priority="1"><formula>A1&gt;1</formula></cfRule></conditionalFormatting>')
        o.append('<dataValidations count="1"><dataValidation type="list" sqref="A1"><formula1>"a,b"</formula1></dataValidation></dataValidations>')
        o.append('<pageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/>')
        o.append("<headerFooter><oddHeader>Page &amp;P</oddHeader></headerFooter>")
        o.append('<rowBreaks count="1"><brk id="1" max="16383" man="1"/></rowBreaks>')
        o.append('<extLst><ext uri="{x}"><x14:a xmlns:x14="urn:x"><x14:f>1</x14:f><x14:sqref>A1</x14:sqref></x14:a></ext></extLst>')
    o.append("</worksheet>")
    return "".join(o)


def _decl(xml: str, ser: dict) -> bytes:
    enc = ser.get("enc", "UTF-8")
    if ser.get("strict"):
        for a, b in STRICT.items():
            xml = xml.replace(a, b)
    if ser.get("comment"):
        xml = "<!-- generated -->" + xml + "\n<!-- end -->\n"
    if ser.get("no_decl") and enc == "UTF-8":
        return (b"\xef\xbb\xbf" if ser.get("bom") else b"") + xml.encode("utf-8")
    if enc == "UTF-16BE":
        return b"\xfe\xff" + f'<?xml version="1.0" encoding="UTF-16"?>{xml}'.encode("utf-16-be")
    body = f'<?xml version="1.0" encoding="{enc}" standalone="yes"?>\n{xml}'
    if enc == "UTF-16":
        return body.encode("utf-16")
    if ser.get("bom"):
        return b"\xef\xbb\xbf" + body.encode("utf-8")
    return body.encode("utf-8")


JUNK_RELS = [("rId910", "externalLink", "externalLinks/externalLink1.xml"), ("rId911", "pivotCacheDefinition", "pivotCache/pivotCacheDefinition1.xml"), ("rId912", "customXml", "../customXml/item1.xml"),
             ("rId913", "hyperlink", "http://example.com/worksheet"), ("rId914", "worksheets", "worksheets/sheet1.xml"), ("rId915", "sheetMetadata", "metadata.xml")]  # fmt: skip


def rels_xml(entries, ser) -> bytes:
    o = [f'<Relationships xmlns="{PKG}">']
    if ser.get("vendor"):
        o.append(f'<Relationship Id="rId990" Type="{REL}/hyperlink" Target="file:///C:\\worksheets\\sheet1.xml" TargetMode="External"/>')
    for i, (rid, typ, target) in enumerate(entries):
        at = [f'Id="{rid}"', f'Type="{REL}/{typ}"', f'Target="{target}"']
        if ser.get("vendor") and i % 2 == 0:
            at.append('TargetMode="Internal"')
        if ser.get("attr_rev"):
            at.reverse()
        o.append(f"<Relationship {' '.join(at)}/>")
    o.append("</Relationships>")
    return _decl("".join(o), {"strict": ser.get("strict")})


def _sheet_plan(spec, ext):
    """[(name, rId, kind, target-relative path)] in workbook order; file numbering may differ."""
    ser = spec.get("ser", {})
    n = len(spec["sheets"])
    perm = list(range(n))
    if ser.get("file_rev"):
        perm.reverse()
    if ser.get("perm"):
        perm = [x for x in ser["perm"] if x < n] + [x for x in perm if x not in ser["perm"]]
    rids = ser.get("rids") or []
    rid_off = ser.get("rid_off", 1)
    plan = []
    for i, sh in enumerate(spec["sheets"]):
        kind = sh.get("kind", "worksheet")
        d = kind + "s"
        part = f"{d}/sheet{perm[i] + 1}.{ext}"
        if ser.get("part"):
            part = ser["part"].format(d=d, i=perm[i] + 1, ext=ext)
        rid = f"rId{perm[i] + rid_off}" if not rids else rids[i] if i < len(rids) else f"{rids[0]}.{i}"
        plan.append((sh["name"], rid, kind, part))
    return plan


def sheet_id(ser, i):
    ids = ser.get("sheet_ids") or []
    return ids[i] if i < len(ids) else i + 1 + sum(ids)


def spell(target: str, ser) -> str:
    """The same target with steps that lead nowhere."""
    k = ser.get("dots", 0)
    if not k:
        return target
    if target.startswith("/"):
        return ("", "/./", "/xl/../", "/xl/./../")[k] + target[1:]
    return ("", "./", "../xl/", "worksheets/../")[k] + target


def member(target: str) -> str:
    """Archive member of a target relative to xl/."""
    path = ["xl"]
    for p in target.split("/"):
        if p == "..":
            path.pop()
        elif p != ".":
            path.append(p)
    return "/".join(path)


def build_xlsx(spec) -> list[tuple[str, bytes]]:
    ser = spec.get("ser", {})
    plan = _sheet_plan(spec, "xml")
    parts: list[tuple[str, bytes]] = []
    ct = [f'<Types xmlns="{CT}"><Default Extension="xml" ContentType="application/xml"/>',
          '<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/></Types>']
    parts.append(("[Content_Types].xml", _decl("".join(ct), {})))
    parts.append(("_rels/.rels", rels_xml([("rId1", "officeDocument", "xl/workbook.xml")], {})))
    more = VENDOR if ser.get("vendor") else ""
    wb = [f'<workbook xmlns="{MAIN}" xmlns:r="{REL}"{more}>']
    if more:
        wb.append('<mc:AlternateContent><mc:Choice Requires="xr"><xr:absPath url="C:\\x"/></mc:Choice><mc:Fallback/></mc:AlternateContent><xr:revisionPtr revIDLastSave="0" documentId="8_{0}" xr:uid="{1}"/>')
    if ser.get("junk"):
        wb.append('<fileVersion appName="xl"/><workbookPr defaultThemeVersion="1"/><bookViews><workbookView/></bookViews>')
    wb.append("<sheets>")
    for i, (name, rid, _k, _t) in enumerate(plan):
        # hidden: None (left out) | 0 visible | 1 hidden | 2 very hidden
        hs = spec["sheets"][i].get("hidden")
        st = "" if hs is None else f' state="{("visible", "hidden", "veryHidden")[hs]}"'
        wb.append(f'<sheet name={quoteattr(name)} sheetId="{sheet_id(ser, i)}"{st}{' xr:id="rId902" xr:name="other"' if more else ""} r:id="{rid}"/>')
    wb.append("</sheets>")
    if ser.get("junk"):
        wb.append('<externalReferences><externalReference r:id="rId910"/></externalReferences><definedNames><definedName name="sheet" localSheetId="0">Data!$A$1</definedName></definedNames><calcPr calcId="1"/>')
        wb.append('<customWorkbookViews><customWorkbookView name="v" guid="{1}" windowWidth="1" windowHeight="1" activeSheetId="1"/></customWorkbookViews><pivotCaches><pivotCache cacheId="1" r:id="rId911"/></pivotCaches>')
        wb.append('<extLst><ext uri="{x}" xmlns:x15="urn:x15"><x15:sheet name="ghost" r:id="' + (plan[0][1] if more and plan else "rId900") + '"/><x15:workbookPr chartTrackingRefBase="1"/></ext></extLst>')
    wb.append("</workbook>")
    parts.append(("xl/workbook.xml", _decl("".join(wb), ser)))
    pre = "/xl/" if ser.get("abs_target") else ""
    rels = [(rid, kind, spell("/" + member(t) if pre else t, ser)) for _n, rid, kind, t in plan]
    if ser.get("rels_rev"):
        rels.reverse()
    extra = [("rId901", "styles", spell(pre + "styles.xml", ser)), ("rId902", "theme", pre + "theme/theme1.xml")]
    has_sst = not (ser.get("no_sst") and not spec["sst"])
    if ser.get("junk"):
        extra += JUNK_RELS
    if has_sst:
        extra.append(("rId900", "sharedStrings", spell(pre + "sharedStrings.xml", ser)))
    rels = extra + rels if ser.get("rels_first") else rels + extra
    parts.append(("xl/_rels/workbook.xml.rels", rels_xml(rels, ser)))
    if has_sst:
        parts.append(("xl/sharedStrings.xml", _decl(xlsx_sst(spec), ser)))
    if not (ser.get("no_styles") and not any(spec["xfs"])):
        parts.append(("xl/styles.xml", _decl(xlsx_styles(spec), ser)))
    parts.append(("xl/theme/theme1.xml", b"<theme/>"))
    for (_n, _r, kind, t), sh in zip(plan, spec["sheets"]):
        if kind == "worksheet":
            parts.append((member(t), _decl(xlsx_sheet(sh, spec), ser)))
        else:
            parts.append((member(t), _decl(f'<{kind} xmlns="{MAIN}"/>', {"strict": ser.get("strict")})))
    return parts


# --------------------------------------------------------------------------------------- XLSB


def biff_size(n: int) -> bytes:
    out = b""
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out += bytes([b | 0x80])
        else:
            return out + bytes([b])


def biff_id(logical: int) -> bytes:
    """A BIFF12 record type: one byte below 128, two 7-bit groups otherwise."""
    if logical < 0x80:
        return bytes([logical])
    return bytes([(logical & 0x7F) | 0x80, logical >> 7])


def rec(logical: int, data: bytes = b"") -> bytes:
    return biff_id(logical) + biff_size(len(data)) + data


def wide(s: str) -> bytes:
    b = s.encode("utf-16-le", "surrogatepass")
    return struct.pack("<I", len(b) // 2) + b


def rk_value(raw: int) -> float:
    """[MS-XLSB] RkNumber."""
    if raw & 2:
        i = raw >> 2
        if raw & 0x80000000:
            i -= 1 << 30
        v = float(i)
    else:
        v = struct.unpack("<d", struct.pack("<Q", (raw & 0xFFFFFFFC) << 32))[0]
    return v / 100 if raw & 1 else v


ERR = {"#NULL!": 0, "#DIV/0!": 7, "#VALUE!": 15, "#REF!": 23, "#NAME?": 29, "#NUM!": 36, "#N/A": 42, "#GETTING_DATA": 43}


def xlsb_cell(cell, ser) -> bytes:
    # column, style (24 bits), flags (show phonetic information)
    head = struct.pack("<I", cell["c"]) + struct.pack("<I", cell.get("s", 0))[:3] + (b"\x01" if ser.get("extra_attrs") else b"\x00")
    tail = b"\x00\x00\x02\x00\x00\x00\x1e\x05\x00" if cell.get("f") else b""
    k = cell["k"]
    if k == "n":
        if "rk" in cell:
            return rec(2, head + struct.pack("<I", cell["rk"]))
        return rec(9 if cell.get("f") else 5, head + struct.pack("<d", float(cell["v"])) + tail)
    if k == "b":
        return rec(10 if cell.get("f") else 4, head + bytes([1 if cell["v"] else 0]) + tail)
    if k == "e":
        return rec(11 if cell.get("f") else 3, head + bytes([ERR.get(cell["v"], 42)]) + tail)
    if k == "s":
        return rec(7, head + struct.pack("<I", cell["v"]))
    if k == "t":
        return rec(8, head + wide(cell["v"]) + b"\x00\x00\x02\x00\x00\x00\x1e\x05\x00")
    if k == "i":
        if cell.get("runs"):
            return rec(62, head + b"\x01" + wide(cell["v"]) + struct.pack("<IHH", 1, len(cell["runs"][0]) & 0xFFFF, 1))
        return rec(6, head + wide(cell["v"]))
    return rec(1, head)


def xlsb_sheet(sheet, spec) -> bytes:
    ser = spec.get("ser", {})
    o = [rec(129)]
    if ser.get("junk"):
        o += [rec(147, b"\x00" * 23), rec(148, struct.pack("<IIII", 0, 9, 0, 9)), rec(133), rec(134), rec(60, b"\x01" * 18)]
        o += [rec(485, b"\x07" * 300)]
    o.append(rec(145))
    for n, cells in expand_rows(sheet["rows"]):
        # what is said of a row (style, height, hidden, outline) is not said of its cells
        about = (n % len(spec["xfs"]), (300, 0, 8190)[n % 3], (0, 0x4000, 0x1000, 0x0901, 0x0003)[n * 3 % 5], n % 2) if ser.get("junk") else (0, 300, 0, 0)
        hdr = struct.pack("<IIHHB", n, *about) + struct.pack("<I", 1) + struct.pack("<II", 0, 5)
        o.append(rec(0, hdr))
        for i, c in enumerate(cells):
            if ser.get("junk") and i % 3 == 1:
                o.append(rec(49, b"\x01\x00\x00\x00"))
            o += _noise(spec, 3) if ser.get("noise") == 2 and i == 1 else _noise(spec, 1)
            o.append(xlsb_cell(c, ser))
    o.append(rec(146))
    if ser.get("junk"):
        o += [rec(476, b"\x00" * 48), rec(477, b"\x11" * 200)]
    o.append(rec(130))
    return b"".join(o)


def _noise(spec, k):
    """Records a reader has to pass over."""
    if not spec.get("ser", {}).get("noise"):
        return []
    ids = spec["ser"].get("noise_ids")
    if ids:
        return [rec(i, (wide("noise"), b"\x00" + wide("z") * 3, struct.pack("<II", 0, 1) * 6, b"")[(j + k) % 4]) for j, i in enumerate(ids)]
    return [rec(35, b"\x00" * 4), rec(2000 + k, b"\x13\x05" * (100, 63, 64, 8200)[k]), rec(36), rec(37, b"\x02\x00" * 3), rec(38), rec(3000)]


def xlsb_sst(spec) -> bytes:
    o = [*_noise(spec, 0), rec(159, struct.pack("<II", len(spec["sst"]), len(spec["sst"])))]
    for it in spec["sst"]:
        if isinstance(it, str):
            o.append(rec(19, b"\x00" + wide(it)))
        else:
            flags = 1 if len(it["runs"]) > 1 else 0
            d = wide("".join(it["runs"]))
            if flags:
                d += struct.pack("<I", len(it["runs"]) - 1)
                pos = 0
                for r in it["runs"][:-1]:
                    pos += len(r)
                    d += struct.pack("<HH", pos & 0xFFFF, 1)
            if it.get("ph"):
                flags |= 2
                d += wide(it["ph"]) + struct.pack("<I", 0)
            o.append(rec(19, bytes([flags]) + d))
    o += [*_noise(spec, 1), rec(160)]
    return b"".join(o)


def xlsb_styles(spec) -> bytes:
    o = [rec(278), *_noise(spec, 2)]
    if spec.get("fmts"):
        o.append(rec(615, struct.pack("<I", len(spec["fmts"]))))
        for fid, code in spec["fmts"].items():
            o.append(rec(44, struct.pack("<H", int(fid)) + wide(code)))
        o.append(rec(616))
    o += [rec(611, b"\x01\x00\x00\x00"), rec(43, b"\x00" * 30), rec(612)]
    n = spec.get("ser", {}).get("cellstylexfs", 1)
    o.append(rec(626, struct.pack("<I", n)))
    for i in range(n):
        o.append(rec(47, struct.pack("<HH", 0xFFFF, 14 if i else 0) + b"\x00" * 12))
    o.append(rec(627))
    o.append(rec(617, struct.pack("<I", len(spec["xfs"]))))
    tail = (b"\x00" * 12, b"\x01\x00\x02\x00\x01\x00\x00\x00\x10\x10\x01\x00", b"\x00" * 6 + b"\xff\x07\x28\x10\x3f\x00")[spec.get("ser", {}).get("apply_nf", 0) % 3]
    for i, fid in enumerate(spec["xfs"]):
        # any of the parents
        o.append(rec(47, struct.pack("<HH", (n - 1 - i) % n, fid) + tail))
    o += [rec(618), *_noise(spec, 3), rec(279)]
    return b"".join(o)


def build_xlsb(spec) -> list[tuple[str, bytes]]:
    ser = spec.get("ser", {})
    plan = _sheet_plan(spec, "bin")
    parts: list[tuple[str, bytes]] = []
    parts.append(("[Content_Types].xml", _decl(f'<Types xmlns="{CT}"/>', {})))
    parts.append(("_rels/.rels", rels_xml([("rId1", "officeDocument", "xl/workbook.bin")], {})))
    wb = [rec(131), *_noise(spec, 0), rec(128, b"\x07" * 40), rec(153, b"\x00" * 12), rec(143)]
    for i, (name, rid, _k, _t) in enumerate(plan):
        hs = int(spec["sheets"][i].get("hidden") or 0)
        wb.append(rec(156, struct.pack("<II", hs, sheet_id(ser, i)) + wide(rid) + wide(name)))
    wb += [rec(144), rec(132)]
    parts.append(("xl/workbook.bin", b"".join(wb)))
    pre = "/xl/" if ser.get("abs_target") else ""
    rels = [(rid, kind, spell("/" + member(t) if pre else t, ser)) for _n, rid, kind, t in plan]
    if ser.get("rels_rev"):
        rels.reverse()
    has_sst = not (ser.get("no_sst") and not spec["sst"])
    extra = [("rId901", "styles", spell(pre + "styles.bin", ser)), ("rId902", "theme", pre + "theme/theme1.xml")]
    if ser.get("junk"):
        extra += JUNK_RELS
    if has_sst:
        extra.append(("rId900", "sharedStrings", spell(pre + "sharedStrings.bin", ser)))
    rels = extra + rels if ser.get("rels_first") else rels + extra
    parts.append(("xl/_rels/workbook.bin.rels", rels_xml(rels, ser)))
    if has_sst:
        parts.append(("xl/sharedStrings.bin", xlsb_sst(spec)))
    if not (ser.get("no_styles") and not any(spec["xfs"])):
        parts.append(("xl/styles.bin", xlsb_styles(spec)))
    parts.append(("xl/theme/theme1.xml", b"<theme/>"))
    for (_n, _r, kind, t), sh in zip(plan, spec["sheets"]):
        if kind == "worksheet":
            parts.append((member(t), xlsb_sheet(sh, spec)))
        else:
            parts.append((member(t), rec(129) + rec(130)))
    return parts


def zip_parts(parts, ser) -> bytes:
    order = list(parts)
    if ser.get("members"):
        junk = [("docProps/app.xml", b"<Properties/>"), ("xl/calcChain.xml", b"<calcChain/>"), ("customXml/item1.xml", b"<x/>"), ("xl/media/", b"")]
        order = junk[:2] + order + junk[2:]
    if ser.get("decoys"):
        # parts of the same names elsewhere: leftovers no relationship points to
        ext = "xml" if any(n == "xl/workbook.xml" for n, _d in parts) else "bin"
        names = ["custom/xl/styles.", "styles.", "xl/old/styles.", "custom/sharedStrings.", "sharedStrings.", "backup/xl/sharedStrings.", "workbook.", "xl/old/workbook.", "xl/_rels/old.workbook.xml.rels.", "xl/externalLinks/externalLink1.", "XL/WORKBOOK.", "xl/worksheets/_rels/sheet1."]
        body = b"<x/>" if ext == "xml" else rec(1000)
        fake = [(n + ext, body) for n in names]
        order = fake + order if ser["decoys"] == 1 else order + fake
    if ser.get("zip_rev"):
        order.reverse()
    buf = _Pipe() if ser.get("streamed") else io.BytesIO()
    comp = zipfile.ZIP_STORED if ser.get("stored") else zipfile.ZIP_DEFLATED
    with zipfile.ZipFile(buf, "w", comp, compresslevel=1) as z:
        for i, (name, data) in enumerate(order):
            zi = zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0))
            zi.compress_type = comp
            if ser.get("mixed") and i % 2:
                zi.compress_type = zipfile.ZIP_STORED if comp else zipfile.ZIP_DEFLATED
            z.writestr(zi, data, compresslevel=9 if ser.get("mixed") else 1)
        if ser.get("zip_comment"):
            z.comment = b"comment of the archive"
    return buf.getvalue()


class _Pipe:
    """An output that cannot seek: sizes follow the data."""

    def __init__(self):
        self.b = bytearray()

    def write(self, d):
        self.b += d
        return len(d)

    def flush(self):
        pass

    def getvalue(self):
        return bytes(self.b)


def build(spec) -> bytes:
    parts = build_xlsx(spec) if spec["fmt"] == "xlsx" else build_xlsb(spec)
    return zip_parts(parts, spec.get("ser", {}))
