"""Text fidelity."""
import re

from .common import *
from .shapes import big_tables, check_big

RULE = "Text cells of every kind, all of Unicode, lengths to 32767; oracle: the generated text itself."


@st.composite
def cases(draw, long=False):
    spec, roles = draw(gen.base_spec(custom=False, sst_pool=gen.texts, min_sst=1, max_sst=12))
    pool = gen.long_texts if long else gen.texts
    if draw(st.integers(0, 4)) == 0:
        # white space XML does not keep by itself, written as references or escapes
        spec["ser"][draw(st.sampled_from(["esc_ws", "charref"]))] = 1
        pool = st.one_of(pool, gen.breaks)
        spec["sst"] = spec["sst"][:6] + draw(st.lists(gen.breaks, min_size=1, max_size=3))
    if long:
        spec["sst"] = spec["sst"][:4] + draw(st.lists(pool, min_size=1, max_size=3))
    nsst = len(spec["sst"])
    rows = []
    for _ in range(draw(st.integers(1, 4 if long else 14))):
        cells = []
        for c in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from("sssti"))
            cell = {"c": c, "k": k}
            if k == "s":
                cell["v"] = draw(st.integers(0, nsst - 1))
            else:
                cell["v"] = draw(pool if draw(st.booleans()) else gen.texts)
                if draw(st.integers(0, 5)) == 0 and spec["fmt"] == "xlsx":
                    cell["v"] = draw(st.sampled_from(gen.EDGE_WS + ["   ", " "]))
                if k == "i" and draw(st.integers(0, 2)) == 0 and len(cell["v"]) > 1 and "_x" not in cell["v"]:
                    if draw(st.booleans()):
                        cell["v"] = gen.clean(draw(gen.phrases)) or "a b"
                    if draw(st.integers(0, 5)) == 0:
                        # as many runs as characters
                        cell["v"] = gen.clean(cell["v"] * draw(st.sampled_from([20, 64, 130, 260])))[:700].strip() or "a b"
                    if "_x" not in cell["v"]:
                        cell["runs"], cell["ph"] = draw(gen.split_runs(cell["v"])), draw(st.booleans())
            if draw(st.booleans()):
                cell["s"] = draw(st.integers(0, len(spec["xfs"]) - 1))
            cells.append(cell)
        rows.append({"cells": cells})
    spec["sheets"] = [{"name": "S", "rows": rows}]
    return case_of(spec, draw(null_kw()))


@st.composite
def null_kw(draw):
    """Null values that name other texts, or look like indices of the shared table."""
    if draw(st.integers(0, 2)):
        return {}
    return {"null_values": draw(st.sampled_from([["0"], ["1"], ["2", "3"], [str(i) for i in range(12)], ["x", "xx"], ["a"]]))}


@st.composite
def tables(draw):
    """Big shared tables full of empty, white-space, error and rich entries, every entry shown once or more."""
    spec, _ = draw(gen.base_spec(custom=False, max_sst=1))
    item = st.one_of(gen.sst_items(), st.sampled_from(["", " ", "#N/A", "#REF!", "a", "b"]), gen.sst_items())
    spec["sst"] = draw(st.lists(item, min_size=2, max_size=40))
    if draw(st.integers(0, 5)) == 0:
        # an entry of many runs
        n = draw(st.sampled_from([30, 100, 127, 128, 255, 256, 257, 300, 600]))
        spec["sst"].insert(draw(st.integers(0, len(spec["sst"]))), {"runs": [draw(st.sampled_from(["a", "é", "b "])) for _ in range(3)] + ["x%d " % i for i in range(n)] + ["z"], "ph": None})
    order = list(range(len(spec["sst"])))
    if draw(st.booleans()):
        order = order[::-1]
    extra = draw(st.lists(st.integers(0, len(spec["sst"]) - 1), max_size=10))
    spec["sheets"] = [{"name": "S", "rows": [{"cells": [{"c": 0, "k": "i", "v": f"r{i}"}, {"c": 1, "k": "s", "v": i}]} for i in order + extra]}]
    return case_of(spec, draw(null_kw()))


def chars(lo, hi):
    for cp in range(lo, hi):
        if 0xD800 <= cp <= 0xDFFF or cp in (0xFFFE, 0xFFFF) or cp == 0:
            continue
        yield chr(cp)


def unicode_blocks(tier):
    blocks = list(range(0, 0x110000, 2048))
    if tier == "quick":
        blocks = blocks[:32] + blocks[32:160:4] + blocks[160::16]
    for i, lo in enumerate(blocks):
        for fmt in ("xlsx", "xlsb"):
            yield {"fmt": fmt, "lo": lo, "hi": lo + 2048, "shared": (i + (fmt == "xlsb")) % 2}


def check_unicode(case):
    texts, cur = [], ""
    for ch in chars(case["lo"], case["hi"]):
        cur += ch
        if len(cur) == 16:
            texts.append("<" + cur + ">")
            cur = ""
    if cur:
        texts.append("<" + cur + ">")
    if not texts:
        return "no characters", False
    sst = texts if case["shared"] else ["a"]
    cells = [{"c": 0, "k": "s", "v": i} if case["shared"] else {"c": 0, "k": "ti"[i % 2], "v": t} for i, t in enumerate(texts)]
    spec = {"fmt": case["fmt"], "sst": sst, "xfs": [0], "sheets": [{"name": "S", "rows": [{"cells": [c]} for c in cells]}]}
    status, _ = rc.check_read(case_of(spec))
    return case["fmt"] + "/" + status, True


SUBS = [
    read_sub("texts", cases, 2200, rule="non-trivial: a table of at least two cells"),
    read_sub("tables", tables, 700, rule="shared tables of up to 40 entries; non-trivial: a table of at least two cells"),
    read_sub("long", lambda: cases(long=True), 160, rule="texts of 250 to 32767 characters; non-trivial: a table", nontrivial=lambda c, s, t: s == "table"),
    Sub("big-tables", check_big, enum=big_tables("xlsx", "xlsb"), rule="shared tables of 65537 to 300000 entries; each non-trivial"),
    Sub("unicode", check_unicode, enum=unicode_blocks, rule="blocks of all code points but surrogates (quick: BMP and samples; thorough: all), each block non-trivial"),
]
