"""Wide strings, sheet records, relationships."""
import io
import struct
from xml.sax.saxutils import quoteattr

from .common import *

RULE = "Drawn strings (null, empty, non-BMP, byte order marks, null characters, lengths around powers of two) and sequences of them, sheet records and relationship attributes; written by the code or an independent encoder and read back by the code, and the other way round."

any_text = st.one_of(
    st.text(st.characters(codec="utf-8", exclude_categories=["Cs"]), max_size=30),
    gen.texts,
    st.sampled_from(["", "\x00", "\x00\x00", "\ufeff", "\ufeffa", "a\ufeff", "\ufffe", "\uffff", "😀", "a😀", "😀" * 3, "\U0010ffff", "\udbff\udfff".encode("utf-16", "surrogatepass").decode("utf-16"), "é", "e\u0301", "\xff\xff", "\uffff\uffff"]),
    st.builds(lambda n, c: c * n, st.sampled_from([127, 128, 255, 256, 257, 4095, 32767, 65535, 65536, 70000]), st.sampled_from("aé中😀")),
)
nullable = st.one_of(st.none(), any_text, any_text, any_text)


def enc(s):
    return b"\xff\xff\xff\xff" if s is None else wb.wide(s)


@st.composite
def strings(draw):
    return {"strings": draw(st.lists(nullable, min_size=1, max_size=6)), "tail": draw(st.sampled_from(["", "00", "ffffffff", "0100000061", "fe"])), "at": draw(st.integers(0, 5))}


def check_strings(case):
    from rxls.biff_recs import xstr

    ss = case["strings"]
    tail = bytes.fromhex(case["tail"])
    f = io.BytesIO()
    f.write(b"\x99" * case["at"])
    ref = b"\x99" * case["at"]
    for s in ss:
        x = xstr(s) if s is None or len(s) % 2 else xstr.from_string(s)
        if x.s != s or x.value != (s or ""):
            raise Violation(f"xstr({s!r:.60}) holds {x.s!r:.60}, value {x.value!r:.60}")
        pos = x.dump(f)
        ref += enc(s)
        if f.getvalue() != ref:
            raise Violation(f"{s!r:.60} is written as {f.getvalue()[-40:].hex()}, not {enc(s)[-40:].hex()}")
        if pos != len(ref):
            raise Violation(f"dump of {s!r:.60} returned {pos} at position {len(ref)}")
        y = xstr.from_binary(enc(s) + tail)
        if y.s != s:
            raise Violation(f"from_binary of {s!r:.60} gives {y.s!r:.60}")
    f.write(tail)
    f.seek(case["at"])
    for i, s in enumerate(ss):
        y = xstr.load(f)
        if y.s != s:
            raise Violation(f"string {i} of {len(ss)}: wrote {s!r:.60}, read {y.s!r:.60}")
        if y != xstr(s):
            raise Violation(f"string {s!r:.60} read back is not equal to the one written")
    if f.read() != tail:
        raise Violation("reading the strings consumed the bytes after them")
    return ("several" if len(ss) > 1 else "one") + ("/null" if None in ss else ""), any(ss)


@st.composite
def bundles(draw):
    return {
        "state": draw(st.one_of(st.integers(0, 2), st.integers(0, 2**32 - 1))),
        "id": draw(st.one_of(st.integers(1, 65534), st.integers(0, 2**32 - 1))),
        "rid": draw(st.one_of(st.integers(1, 999).map(lambda i: f"rId{i}"), nullable)),
        "name": draw(nullable),
    }


def check_bundle(case):
    from rxls.biff import record, scan_biff
    from rxls.biff_recs import BrtBundleSh

    data = struct.pack("<II", case["state"], case["id"]) + enc(case["rid"]) + enc(case["name"])
    stream = wb.rec(143) + wb.rec(156, data) + wb.rec(156, data) + wb.rec(144)
    recs = list(scan_biff(io.BytesIO(stream), {412}))
    if len(recs) != 2:
        raise Violation(f"{len(recs)} sheet records scanned of 2")
    for r in (*recs, record.from_data("BrtBundleSh", data), record(412, data)):
        b = BrtBundleSh.loadr(r)
        got = (b.hsState, b.iTabID, b.strRelID.s, b.strName.s)
        if got != (case["state"], case["id"], case["rid"], case["name"]):
            raise Violation(f"sheet record {case!r:.200} read as {got!r:.200}")
    return "null" if case["rid"] is None or case["name"] is None else "texts", True


def xml_ok(ch):
    c = ord(ch)
    return c in (9, 10, 13) or 32 <= c < 0xD800 or 0xE000 <= c < 0xFFFE or c > 0xFFFF


attr_text = st.one_of(
    any_text, any_text, st.text(st.sampled_from("<>&\"'\n\r\t ;#x&amp;0 a/"), max_size=12),
    st.sampled_from(["rId1", "worksheets/sheet1.xml", "/xl/worksheets/sheet1.xml", "../a b.xml", "a'b\"c", "&quot;", "\"", "'", "\n", " lead", "trail ", "a&b", "<", "]]>"]),
).map(lambda s: "".join(filter(xml_ok, s))[:300])  # fmt: skip


@st.composite
def relations(draw):
    item = st.tuples(attr_text, attr_text.map(lambda s: s.replace("/", "")), attr_text).map(list)
    return {"rels": draw(st.lists(item, min_size=1, max_size=5)), "own": draw(st.booleans())}


def check_rel(case):
    from rxls.rels import Relationship

    rels = [Relationship(*r) for r in case["rels"]]
    f = io.BytesIO()
    f.write(f'<?xml version="1.0" encoding="UTF-8"?>\n<Relationships xmlns="{wb.PKG}">'.encode())
    for r, (i, t, g) in zip(rels, case["rels"]):
        if case["own"]:
            f.write(f"<Relationship Target={quoteattr(g)} Id={quoteattr(i)} Type={quoteattr(wb.REL + '/' + t)}/>".encode())
        else:
            r.dump_xml(f)
    f.write(b"</Relationships>")
    f.seek(0)
    got = Relationship.scan_xml(f)
    if [[r.Id, r.Type, r.Target] for r in got] != case["rels"]:
        raise Violation(f"wrote {case['rels']!r:.300}, read {[[r.Id, r.Type, r.Target] for r in got]!r:.300} from {f.getvalue()!r:.400}")
    if got != rels:
        raise Violation("relationships read back are not equal to those written")
    if not case["own"]:
        # what was written must be XML that says the same to another reader
        import xml.etree.ElementTree as ET

        root = ET.fromstring(f.getvalue())
        seen = [[e.get("Id"), e.get("Type").rsplit("/", 1)[1], e.get("Target")] for e in root]
        if seen != case["rels"]:
            raise Violation(f"wrote {case['rels']!r:.300}, another XML reader sees {seen!r:.300}")
    special = any(set(x) & set("<>&\"'\n\r\t") for r in case["rels"] for x in r)
    return "special" if special else "plain", any(x for r in case["rels"] for x in r)


SUBS = [
    Sub("strings", check_strings, strings, 3000, rule="non-trivial: at least one character"),
    Sub("sheet records", check_bundle, bundles, 1500, rule="sheet records"),
    Sub("relationships", check_rel, relations, 3000, rule="non-trivial: at least one character"),
]
