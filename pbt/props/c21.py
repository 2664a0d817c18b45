"""RK numbers."""
import struct

from .common import *

RULE = "Blocks of the 2^32 RK words decoded directly and through XLSB sheets, and integers, hundredths and short doubles encoded and decoded, against an independent decoder."


def ref(raw):
    import numpy as np

    raw = np.asarray(raw, dtype=np.uint64)
    i = (raw >> np.uint64(2)).astype(np.int64)
    i = np.where(i >= 2**29, i - 2**30, i).astype(np.float64)
    f = ((raw & np.uint64(0xFFFFFFFC)) << np.uint64(32)).view(np.float64)
    v = np.where(raw & np.uint64(2), i, f)
    with np.errstate(all="ignore"):
        return np.where(raw & np.uint64(1), v / 100.0, v)


def same(a, b):
    import numpy as np

    return (a == b) | (np.isnan(a) & np.isnan(b))


def first_bad(ok):
    import numpy as np

    return int(np.argmin(ok))


def blocks(tier):
    if tier == "thorough":
        for i in range(4096):
            yield {"lo": i << 20, "n": 1 << 20}
        return
    for i in range(1024):
        # every block of 2^22 words: its first, its last and some words between
        for lo in (i << 22, ((i + 1) << 22) - 4096, (i << 22) + (i * 2654435761 % (1 << 22)) // 4096 * 4096):
            yield {"lo": lo, "n": 4096}


def check_block(case):
    import numpy as np
    from rxls.chunk.casts import rk_to_f8

    raw = np.arange(case["lo"], case["lo"] + case["n"], dtype=np.uint64).astype(np.uint32)
    keep = raw.copy()
    with np.errstate(all="ignore"):
        got = rk_to_f8(raw)
    want = ref(keep)
    ok = same(got, want)
    if not ok.all():
        k = first_bad(ok)
        raise Violation(f"RK word {int(keep[k]):#010x} decodes to {got[k]!r}, not {want[k]!r}")
    return "block", True


def finite(raw):
    return raw & 2 or (raw >> 20) & 0x7FF != 0x7FF


rk_words = st.one_of(
    gen.rks,
    st.builds(lambda s, low: (s & 0xFFFFFFF0) | low, st.sampled_from([0, 0x7FFFFFF0, 0x80000000, 0x80000010, 0xFFFFFFF0, 0x3FF00000, 0xBFF00000, 0x40000000, 0xC0000000]), st.integers(0, 15)),
    st.builds(lambda b, f: (1 << b) | f, st.integers(2, 31), st.integers(0, 3)),
    st.builds(lambda b, f: (0xFFFFFFFF << b) & 0xFFFFFFFC | f, st.integers(2, 31), st.integers(0, 3)),
).filter(finite)


@st.composite
def sheets(draw):
    cols = draw(st.lists(st.lists(rk_words, min_size=1, max_size=24), min_size=1, max_size=4))
    return {"cols": cols, "half": draw(st.booleans()), "temporal": draw(st.booleans())}


def check_sheet(case):
    n = max(len(c) for c in case["cols"])
    rows = []
    half = struct.unpack("<Q", struct.pack("<d", 0.5))[0] >> 32
    cols = [([half] if case["half"] else []) + c for c in case["cols"]]
    for r in range(n + 1):
        rows.append({"cells": [{"c": j, "k": "n", "v": wb.rk_value(c[r]), "rk": c[r], "s": 1} for j, c in enumerate(cols) if r < len(c)]})
    spec = {"fmt": "xlsb", "sst": ["a"], "xfs": [0, 2], "sheets": [{"name": "S", "rows": rows}]}
    kw = {"float_precision": 15}
    status, t = rc.check_read(case_of(spec, kw))
    for j, c in enumerate(cols):
        got = t.column(j).to_pylist()[: len(c)]
        for g, raw in zip(got, c):
            v = wb.rk_value(raw)
            if not (g == v or isinstance(g, int) and abs(v) < 2**63 and abs(g - v) < 1e-14):
                raise Violation(f"RK word {raw:#010x} reads as {g!r}, not {v!r}")
    return "doubles" if case["half"] else "any", True


def sheet_blocks(tier):
    k = 96 if tier == "quick" else 4096
    for i in range(k):
        yield {"from": i * (2**32 // k), "step": (2**32 // k) // 2048 | 1, "n": 2048}


def check_sheet_block(case):
    """2048 words of one range through a sheet; a half above them makes the column one of doubles."""
    import numpy as np

    raws = [(case["from"] + i * case["step"]) & 0xFFFFFFFF for i in range(case["n"])]
    raws = [r for r in raws if finite(r)]
    half = struct.unpack("<Q", struct.pack("<d", 0.5))[0] >> 32
    rows = [{"cells": [{"c": 3, "k": "n", "v": 0.0, "rk": r, "s": 1}]} for r in [half, *raws]]
    spec = {"fmt": "xlsb", "sst": ["a"], "xfs": [0, 2], "sheets": [{"name": "S", "rows": rows}]}
    t = rc.do_read(wb.build(spec), 0, {})
    if str(t.column(0).type) != "double" or t.num_rows != len(rows):
        raise Violation(f"{len(rows)} RK cells read as {t.num_rows} rows of {t.column(0).type}")
    got = np.array(t.column(0).to_pylist()[1:], dtype=float)
    want = ref(raws)
    ok = same(got, want)
    if not ok.all():
        k = first_bad(ok)
        raise Violation(f"RK word {raws[k]:#010x} reads as {got[k]!r}, not {want[k]!r}")
    return "sheet block", True


# ------------------------------------------------------------------------------------ encoding

LIM = 2**29
enc_ints = st.one_of(st.integers(-LIM + 1, LIM - 1), st.sampled_from([0, 1, -1, LIM - 1, 1 - LIM, 100, -100, LIM // 100, LIM // 2]), st.integers(-200, 200))
short_doubles = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False),
    st.sampled_from([0.5, -0.5, 0.25, 2.0**29, -(2.0**29), 2.0**29 * 3, 2.0**30, 2.0**31, -(2.0**31), 2.0**32, 1e300, 2.0**-1022, 2.0**1000, 536870912.0, 5368709.0, 0.0, -0.0, 1.5, 1.125, 2.0**-20]),
    st.floats(-1e10, 1e10),
).map(lambda f: struct.unpack("<d", struct.pack("<Q", struct.unpack("<Q", struct.pack("<d", f))[0] >> 34 << 34))[0])


@st.composite
def encodables(draw):
    items = st.one_of(enc_ints.map(lambda i: ["i", float(i)]), enc_ints.map(lambda i: ["c", i / 100]), short_doubles.map(lambda f: ["d", f]))
    kind = draw(st.sampled_from(["mixed", "i8"]))
    if kind == "mixed":
        return {"how": "f8", "vals": draw(st.lists(items, min_size=1, max_size=30))}
    ty = draw(st.sampled_from(["int64", "int32", "uint64", "uint32"]))
    v = draw(st.lists(enc_ints, min_size=1, max_size=30))
    return {"how": ty, "vals": [["i", abs(x) if ty[0] == "u" else x] for x in v]}


def verify_encoding(arr, how):
    import numpy as np
    from rxls.chunk import casts

    keep = arr.copy()
    with np.errstate(all="ignore"):
        raw = casts.f8_to_rk(arr) if how == "f8" else casts.i8_to_rk(arr)
        back = casts.rk_to_f8(np.asarray(raw, dtype=np.uint32))
    if len(raw) != len(keep):
        raise Violation(f"{len(keep)} numbers encoded to {len(raw)}")
    raw = np.asarray(raw)
    if raw.dtype != np.uint32:
        raise Violation(f"encoded words are {raw.dtype}")
    want = keep.astype(np.float64)
    for got, who in ((ref(raw), "an independent decoder"), (back, "rk_to_f8")):
        ok = got == want
        if not ok.all():
            k = first_bad(ok)
            raise Violation(f"{how}: {keep[k]!r} is encoded as {int(raw[k]):#010x}, which {who} reads as {got[k]!r}")


def check_encode(case):
    import numpy as np

    how = case["how"]
    arr = np.array([v for _k, v in case["vals"]], dtype=np.float64 if how == "f8" else how)
    verify_encoding(arr, how)
    return how, True


def ranges(tier):
    n = 1 << 20
    if tier == "thorough":
        for lo in range(1 - LIM, LIM, n):
            for how in ("f8", "cents", "int64"):
                yield {"how": how, "lo": lo, "n": min(n, LIM - lo)}
        return
    for lo in range(1 - LIM, LIM, n * 8):
        for how in ("f8", "cents", "int64"):
            yield {"how": how, "lo": lo, "n": 1 << 14}
    for how in ("f8", "cents", "int64"):
        yield {"how": how, "lo": -(1 << 15), "n": 1 << 16}
        yield {"how": how, "lo": LIM - (1 << 14), "n": 1 << 14}


def check_range(case):
    import numpy as np

    a = np.arange(case["lo"], case["lo"] + case["n"], dtype=np.int64)
    if case["how"] == "f8":
        a = a.astype(np.float64)
    elif case["how"] == "cents":
        a = a.astype(np.float64) / 100.0
    verify_encoding(a, "int64" if case["how"] == "int64" else "f8")
    return case["how"], True


def doubles(tier):
    """All short doubles: their 30 leading bits."""
    k = 1024 if tier == "thorough" else 64
    n = 2**30 // 1024 if tier == "thorough" else 4096
    for i in range(k):
        yield {"lo": i * (2**30 // k), "n": n}


def check_doubles(case):
    import numpy as np

    a = (np.arange(case["lo"], case["lo"] + case["n"], dtype=np.uint64) << np.uint64(34)).view(np.float64)
    a = a[np.isfinite(a)]
    if len(a):
        verify_encoding(a, "f8")
    return "short doubles", bool(len(a))


SUBS = [
    Sub("words", check_block, enum=blocks, rule="each case is a block of words, decoded directly (thorough: all 2^32)"),
    Sub("sheets", check_sheet, sheets, 1500, rule="RK cells of a sheet"),
    Sub("sheet blocks", check_sheet_block, enum=sheet_blocks, rule="2048 words per case, spread over the whole range, read through a sheet"),
    Sub("encode", check_encode, encodables, 4000, rule="arrays mixing integers, hundredths and doubles of 30 bits"),
    Sub("ranges", check_range, enum=ranges, rule="ranges of integers and hundredths (thorough: all)"),
    Sub("doubles", check_doubles, enum=doubles, rule="ranges of doubles of 30 leading bits (thorough: all)"),
]
