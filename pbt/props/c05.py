"""Format classification."""
from .common import *

RULE = "Style tables with built-in and generated custom format codes, whose class is known by construction; one numeric column per style."

STANDARD = {1: ("0", "N"), 2: ("0.00", "N"), 3: ("#,##0", "N"), 4: ("#,##0.00", "N"), 9: ("0%", "U"), 12: ("# ?/?", "U"), 14: ("mm-dd-yy", "T"), 15: ("d-mmm-yy", "T"), 17: ("mmm-yy", "T"),
            18: ("h:mm AM/PM", "T"), 21: ("h:mm:ss", "T"), 22: ("m/d/yy h:mm", "T"), 37: ("#,##0 ;(#,##0)", "N"), 40: ("#,##0.00;[Red](#,##0.00)", "N"), 45: ("mm:ss", "T"), 46: ("[h]:mm:ss", "T"),
            47: ("mmss.0", "T"), 48: ("##0.0E+0", "N"), 49: ("@", "U")}  # fmt: skip


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["xlsx", "xlsb"]))
    xfs, fmts, cls = [0], {}, {}
    for (code, c), fid in draw(st.lists(st.tuples(gen.custom_formats, gen.custom_ids), min_size=1, max_size=8)):
        if str(fid) not in fmts:
            fmts[str(fid)], cls[str(fid)] = code, c
    if draw(st.integers(0, 3)) == 0:
        # writers may spell out built-in formats
        for fid in draw(st.lists(st.sampled_from(sorted(STANDARD)), min_size=1, max_size=6, unique=True)):
            fmts[str(fid)], cls[str(fid)] = STANDARD[fid]
    if draw(st.integers(0, 3)) == 0:
        fmts = dict(draw(st.permutations(sorted(fmts.items()))))
    pool = [int(f) for f in fmts] * 3 + gen.N_IDS + gen.T_IDS + gen.U_IDS + [23, 26, 27, 30, 32, 36, 50, 57, 58, 81]
    xfs += draw(st.lists(st.sampled_from(pool), min_size=1, max_size=12)) + [int(f) for f in fmts]
    if draw(st.integers(0, 3)) == 0:
        k = draw(st.sampled_from([60, 127, 255, 256, 300, 700]))
        xfs = [0] + [draw(st.sampled_from(pool)) for _ in range(3)] * (k // 3) + xfs
    if draw(st.integers(0, 2)) == 0:
        xfs[0] = draw(st.sampled_from(pool))
    use = sorted(set(range(len(xfs))) if len(xfs) < 24 else set(range(6)) | set(range(len(xfs) - 12, len(xfs))) | {127, 128, 255, 256} & set(range(len(xfs))))
    ser = draw(gen.sers(1))
    ser.pop("no_styles", None)
    if draw(st.integers(0, 3)) == 0:
        ser["cellstylexfs"] = draw(st.sampled_from([255, 256, 257, 511, 512, 600]))
    v = draw(st.sampled_from([44197.0, 44197.5, 0.25, 1.0, 36526.75, 2.0, 100.0]))
    rk = draw(st.booleans())
    cells = []
    for i, s in enumerate(use):
        c = {"c": i, "k": "n", "v": v, "s": s}
        if rk and v.is_integer():
            c["rk"] = (int(v) << 2) | 2
        elif draw(st.integers(0, 5)) == 0:
            c["f"] = 1
        elif draw(st.integers(0, 7)) == 0:
            c = {"c": i, "k": "b", "v": rk, "s": s, "f": draw(st.integers(0, 1))}
        cells.append(c)
    spec = {"fmt": fmt, "sst": ["a"], "xfs": xfs, "fmts": fmts, "cls": cls, "ser": ser, "sheets": [{"name": "S", "rows": [{"cells": cells}]}]}
    return case_of(spec)


def large(tier):
    """Style tables up to the limit of the format."""
    for fmt in ("xlsx", "xlsb"):
        for n in (255, 256, 257, 32767, 32768, 64000) if tier == "quick" else (255, 256, 257, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536 - 2):
            use = sorted({0, 1, 2, 3, 254, 255, 256, 257, 511, 512, 4096, 16384, 32767, 32768, n - 3, n - 2, n - 1} & set(range(n)))
            xfs = [(0, 14, 2, 165)[i % 4] for i in range(n)]
            cells = [{"c": i, "k": "n", "v": 44197.5, "s": s} for i, s in enumerate(use)]
            yield case_of({"fmt": fmt, "sst": ["a"], "xfs": xfs, "fmts": {"165": "h:mm"}, "cls": {"165": "T"}, "sheets": [{"name": "S", "rows": [{"cells": cells}]}]})


def builtins(tier):
    for fmt in ("xlsx", "xlsb"):
        for v in (44197.25, 0.5, 7.0):
            for off in (1, 40, 300):
                ids = list(range(60))
                xfs = [0] * off + ids
                cells = [{"c": i, "k": "n", "v": v, "s": off + i} for i in range(len(ids))]
                yield case_of({"fmt": fmt, "sst": ["a"], "xfs": xfs, "sheets": [{"name": "S", "rows": [{"cells": cells}]}]})


def codes(tier):
    """Every fixed code of the pools, at several ids, alone in its table."""
    pool = [(c, "T") for c in gen.T_FIXED] + [(c, "N") for c in gen.N_CODES] + [(c, "U") for c in gen.U_CODES]
    for fmt in ("xlsx", "xlsb"):
        for k, fid in enumerate((164, 5, 271, 11791)):
            fm, cl, xfs, cells = {}, {}, [0], []
            for i, (code, c) in enumerate(pool):
                ident = fid + 7 * i if fid >= 164 else [5, 6, 7, 8, 41, 42, 43, 44, *range(400, 600)][i]
                fm[str(ident)], cl[str(ident)] = code, c
                xfs.append(ident)
                cells.append({"c": i, "k": "n", "v": 44197.5, "s": i + 1})
            yield case_of({"fmt": fmt, "sst": ["a"], "xfs": xfs, "fmts": fm, "cls": cl, "sheets": [{"name": "S", "rows": [{"cells": cells}]}]})


SUBS = [
    read_sub("styles", cases, 2600, rule="non-trivial: a table with two or more style columns"),
    read_sub("builtin", None, 0, enum=builtins, rule="all documented built-in ids 0-22 and 37-49, behind 1, 40 and 300 other styles (exhaustive)"),
    read_sub("large", None, 0, enum=large, rule="tables of 255 to 64000 styles"),
    read_sub("codes", None, 0, enum=codes, rule="every fixed custom code of the pools"),
]
