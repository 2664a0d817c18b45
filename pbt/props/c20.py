"""BIFF12 record streams."""
import io
import zipfile

from .common import *

RULE = "Record sequences with valid ids (one byte below 128, or two bytes), payloads around the boundaries of 1 to 4 byte sizes, id filters, cuts; encoded by the code and by an independent encoder."

LENS = [0, 0, 1, 2, 3, 8, 126, 127, 128, 129, 255, 256, 257, 1000, 16382, 16383, 16384, 16385, 65535, 65536]
BIG = [2097150, 2097151, 2097152, 2097153, 2097152 + 127, 2097152 + 128, 3000000, 4194303, 4194304]
IDS = [0, 1, 2, 7, 19, 44, 47, 127, 0x80, 0xFF, 0x180, 0x19C, 0x192, 0x381, 0x7F80, 0x7FFF, 0x27EB, 0x100 | 0x80, 0x80 | 0x2C00]
ids = st.one_of(st.sampled_from(IDS), st.integers(0, 127), st.builds(lambda lo, hi: lo | hi << 8, st.integers(128, 255), st.integers(0, 127)))


def enc_id(i):
    return bytes([i]) if i < 128 else bytes([i & 255, i >> 8])


def payload(n, fill):
    if not n:
        return b""
    kind = fill % 5
    if kind == 0:
        unit = bytes((fill * 31 + j * 7) & 255 for j in range(min(n, 251)))
    elif kind == 1:
        unit = b"\x00"
    elif kind == 2:
        unit = b"\xff"
    elif kind == 3:
        unit = b"\x81\x03\x09some data\x00\x00\x13\x05abcde"  # looks like records
    else:
        unit = b"\x80\x80\x80\x80\x01"
    return (unit * (n // len(unit) + 1))[:n]


@st.composite
def sequences(draw, big=False):
    lens = st.one_of(st.sampled_from(LENS), st.integers(0, 300), st.integers(0, 40))
    recs = draw(st.lists(st.tuples(ids, lens, st.integers(0, 999), st.integers(1, 8)), min_size=0 if not big else 1, max_size=8).map(lambda x: [list(y) for y in x]))
    if big:
        i = draw(st.integers(0, len(recs) - 1))
        recs[i][1] = draw(st.sampled_from(BIG))
    have = sorted({r[0] for r in recs})
    only = None
    if draw(st.integers(0, 2)):
        only = draw(st.lists(st.one_of(st.sampled_from(have or IDS), ids), min_size=1, max_size=4, unique=True))
    return {"recs": recs, "only": only, "via": draw(st.sampled_from(["bytes", "bytes", "zip", "zip stored"])), "cut": draw(st.integers(0, 10**6))}


def scan(data, only, via="bytes"):
    from rxls.biff import scan_biff

    if via == "bytes":
        got = list(scan_biff(io.BytesIO(data), only))
    else:
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_STORED if via.endswith("stored") else zipfile.ZIP_DEFLATED, compresslevel=1) as z:
            z.writestr("p", data)
        with zipfile.ZipFile(buf) as z, z.open("p") as f:
            got = list(scan_biff(f, only))
    return [(r.rec_id, bytes(r.data)) for r in got]


def brief(xs):
    return [(i, len(d), d[:12].hex()) for i, d in xs[:12]]


def check(case):
    from rxls.biff import dump_sz, record

    recs = [(i, payload(n, f), k) for i, n, f, k in case["recs"]]
    stream = io.BytesIO()
    ref, ends = b"", []
    for i, d, k in recs:
        # in pieces, some of them empty
        cut = [0, *sorted(min(len(d), (len(d) + 2) * j // k) for j in range(1, k)), len(d)]
        if k > 3:
            cut = [0] * (k % 2) + cut + [len(d)] * (k // 3)
        r = record.from_data(i, *[d[a:b] for a, b in zip(cut, cut[1:])])
        if (r.rec_id, bytes(r.data)) != (i, d):
            raise Violation(f"from_data({i:#x}, {len(d)} bytes) holds id {r.rec_id:#x} and {len(r.data)} bytes")
        if r.rec_sz != len(d) or r.is_empty != (not d):
            raise Violation(f"record of {len(d)} bytes: rec_sz {r.rec_sz}, is_empty {r.is_empty}")
        b = r.as_binary()
        want = enc_id(i) + wb.biff_size(len(d)) + d
        if b != want:
            raise Violation(f"record {i:#x} of {len(d)} bytes is encoded as {b[:16].hex()}... ({len(b)} bytes), not {want[:16].hex()}... ({len(want)} bytes)")
        if dump_sz(len(d)) != wb.biff_size(len(d)):
            raise Violation(f"dump_sz({len(d)}) is {dump_sz(len(d)).hex()}, not {wb.biff_size(len(d)).hex()}")
        pos = r.dump(stream)
        ref += want
        ends.append(len(ref))
        if stream.getvalue() != ref or pos != len(ref):
            raise Violation(f"dump of record {i:#x} ({len(d)} bytes) wrote something else than as_binary, or returned {pos} at {len(ref)}")
    want = [(i, d) for i, d, _k in recs]
    only = set(case["only"]) if case["only"] is not None else None

    def match(xs):
        return [x for x in xs if only is None or x[0] in only]

    got = scan(ref, only, case["via"])
    if got != match(want):
        raise Violation(f"scanned {brief(got)}, wrote {brief(match(want))}")
    if only is not None:
        got = scan(ref, None)
        if got != want:
            raise Violation(f"scanned {brief(got)}, wrote {brief(want)}")
    cuts = set(range(len(ref))) if len(ref) <= 260 else {c + d for c in [0, *ends] for d in (-2, -1, 0, 1, 2, 3, 4, 5)} | {case["cut"] % len(ref)}
    if len(ref) > 10**6:
        cuts = set(sorted(cuts)[case["cut"] % 4 :: 4])
    for c in sorted(cuts):
        if not 0 <= c <= len(ref):
            continue
        n = sum(1 for e in ends if e <= c)
        for f in (only, None) if len(ref) <= 260 else (only,):
            got = scan(ref[:c], f)
            exp = [x for x in want[:n] if f is None or x[0] in f]
            if got != exp:
                raise Violation(f"cut at {c} of {len(ref)}: scanned {brief(got)}, complete before the cut are {brief(exp)}")
    label = "empty" if not recs else f"{len(recs)} records" if len(recs) < 2 else "2+ records"
    return label + ("/filtered" if only is not None else ""), len(recs) >= 2


def sizes(tier):
    step = 2048
    tops = list(range(0, 16384 + 2 * step, step))
    for lo in tops:
        yield {"sizes": [lo, lo + step]}
    for mid in (2**16, 2**20, 2**21, 2**22, 2**24, 2**27, 2**28 - 1024):
        yield {"sizes": [mid - 1024, mid + 1024]}
    for k in range(40 if tier == "quick" else 4000):
        yield {"sizes": [k * 2**28 // (40 if tier == "quick" else 4000), k * 2**28 // (40 if tier == "quick" else 4000) + 512]}


def check_sizes(case):
    from rxls.biff import dump_sz

    for n in range(*case["sizes"]):
        if dump_sz(n) != wb.biff_size(n):
            raise Violation(f"dump_sz({n}) is {dump_sz(n).hex()}, not {wb.biff_size(n).hex()}")
    return "sizes", True


def names(tier):
    from rxls.biff_enum import BIFF_ENUM

    yield {"names": sorted(BIFF_ENUM)}


# [MS-XLSB] 2.3.2: record types (logical numbers) of the records every workbook consists of
MS_XLSB = {
    "BrtRowHdr": 0, "BrtCellBlank": 1, "BrtCellRk": 2, "BrtCellError": 3, "BrtCellBool": 4, "BrtCellReal": 5, "BrtCellSt": 6, "BrtCellIsst": 7,
    "BrtFmlaString": 8, "BrtFmlaNum": 9, "BrtFmlaBool": 10, "BrtFmlaError": 11, "BrtSSTItem": 19, "BrtFont": 43, "BrtFmt": 44, "BrtFill": 45,
    "BrtBorder": 46, "BrtXF": 47, "BrtStyle": 48, "BrtColInfo": 60, "BrtCellRString": 62, "BrtBeginSheet": 129, "BrtEndSheet": 130,
    "BrtBeginBook": 131, "BrtEndBook": 132, "BrtBeginSheetData": 145, "BrtEndSheetData": 146, "BrtWsProp": 147, "BrtWsDim": 148,
    "BrtBeginBundleShs": 143, "BrtEndBundleShs": 144, "BrtBundleSh": 156, "BrtBeginSst": 159, "BrtEndSst": 160, "BrtBeginStyleSheet": 278,
    "BrtEndStyleSheet": 279, "BrtBeginFmts": 615, "BrtEndFmts": 616, "BrtBeginCellXFs": 617, "BrtEndCellXFs": 618, "BrtBeginCellStyleXFs": 626,
    "BrtEndCellStyleXFs": 627,
}  # fmt: skip


def check_names(case):
    from rxls.biff import record

    seen = {}
    for n in case["names"]:
        r = record.from_data(n, b"abc")
        if not isinstance(r.rec_id, int):
            raise Violation(f"record.from_data({n!r}) has id {r.rec_id!r}")
        b = r.as_binary()
        got = scan(b, None)
        if got != [(r.rec_id, b"abc")] or scan(b + b, {r.rec_id}) != got * 2:
            raise Violation(f"record {n} (id {r.rec_id:#x}) is scanned as {brief(got)}")
        if r.rec_name != n:
            raise Violation(f"record {n} names itself {r.rec_name}")
        if r.rec_id in seen:
            raise Violation(f"records {n} and {seen[r.rec_id]} have the same id")
        seen[r.rec_id] = n
        if n in MS_XLSB and enc_id(r.rec_id) != wb.biff_id(MS_XLSB[n]):
            raise Violation(f"record {n} is encoded with id {enc_id(r.rec_id).hex()}, not {wb.biff_id(MS_XLSB[n]).hex()}")
    return "names", True


NT = "non-trivial: at least two records"
SUBS = [
    Sub("streams", check, sequences, 4000, rule=NT),
    Sub("large", check, lambda: sequences(big=True), 400, rule=NT + ", one of more than 2 MiB", factor=10),
    Sub("sizes", check_sizes, enum=sizes, rule="all sizes of the listed ranges"),
    Sub("names", check_names, enum=names, rule="every named record type (exhaustive)"),
]
