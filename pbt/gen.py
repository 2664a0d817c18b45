"""Hypothesis strategies for workbook cases.

Every strategy yields plain JSON values (a case), so that a shrunk failure is its own replay file.
A column has a small palette of cell prototypes; every row picks one of them (or nothing), and the
prototype varies its value with the row, so that a misplaced value shows.
"""
from __future__ import annotations

import copy
import datetime as dt
import re
import struct

from hypothesis import strategies as st

from . import oracle as o
from .wb import rk_value

SPECIAL_COLS = [0, 1, 2, 3, 4, 5, 7, 24, 25, 26, 27, 51, 52, 77, 255, 256, 675, 676, 700, 701, 702, 703, 728, 16383]
N_IDS = [1, 2, 3, 4, 37, 38, 39, 40, 48]
T_IDS = [14, 15, 16, 17, 18, 19, 20, 21, 22, 45, 46, 47]
U_IDS = [0, 9, 10, 11, 12, 13, 49]

ERR_LIST = sorted(o.ERRORS)
ERR_CODES = ["#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA"]

# ------------------------------------------------------------------------------------ text

_plain = st.characters(codec="utf-8", exclude_categories=["Cs", "Cn", "Cc"], exclude_characters="\ufffe\uffff\ufeff")
_word = st.text(st.sampled_from("abcXYZ019 -_.,;:/\\'\"&<>#@!?%$()[]{}|~`^*+=éßЖ中\u0301😀𝔘\u200f\u00a0"), min_size=1, max_size=12)
NASTY = [
    "a", "x", "xx", "x1", "-", "--", "n/a", "N/A", "A&B <c> \"d\" 'e'", "]]>", "<![CDATA[x]]>", "&amp;", "&#65;", "\u0301combining",
    "😀", "a😀b", "𝔘𝔫𝔦", "עברית", "‮rtl", "line1\nline2", "a\r\nb", "tab\there", "cr\rcr", "_x000D_", "_x0041_", "_x_", "a_x005F_b", "_x005F_", "_x005f_x0041_", "_x005F_x005F_x000a_", "nul\x00", "\x00", "n\x00ul\x00\x00",
    "bell\x07", "unit\x1fsep", "\ufeffbom", "b\ufeffom", "日本語テキスト", "Ü" * 40, "#N/A!", "#n/a", "# N/A", "#DIV/0", "N/A #N/A", "True",
    "0x10", "=1+1", "'quoted", "a" * 255, "a" * 256, "b" * 300, "TRUE", "NULL", "None", "General", "1,5", "1 000", "$5", "12%", "٣",
    "a  b", "i\u0307", "ﬁ", "\U0010ffff"[:0] or "\U0010fffd",
]  # fmt: skip
EDGE_WS = [" lead", "trail ", "\tboth\t", "\nnl\n", "  two  words  "]
NUM_TEXTS = ["007", "1", "42", "-5", "3.25", "0.1", "1e5", "2E-3", "100000", "1234567", "0", "12.50", "-0.75", "9007199254740993"]


def clean(s: str) -> str:
    """Text whose edges are plain: no white space other than what the texts above use."""
    s = s.replace("\ufffe", "").replace("\uffff", "")
    t = s.strip()
    return t if t else "q"


texts = st.one_of(
    st.sampled_from(NASTY),
    _word.map(clean),
    st.text(_plain, min_size=1, max_size=20).map(clean),
)
long_texts = st.one_of(
    st.integers(250, 9000).map(lambda n: ("Längere Texte 😀 " * (n // 16 + 1))[:n].strip() + "."),
    st.sampled_from([4095, 4096, 8191, 8192, 8193, 16384, 32766, 32767]).map(lambda n: "z" * (n - 1) + "é"),
    st.sampled_from([127, 128, 8191, 8192, 16383, 16384, 32766, 32767]).map(lambda n: "a" + "😀" * (n - 2) + "é"),
    # characters that are escaped or referred to, anywhere in a long text
    st.builds(lambda k, unit, n: "k" * k + unit * (n // len(unit)) + "z", st.integers(1, 16), st.sampled_from(["_x0041_", "\x0b", "&", "a\r\nb", "<é&", "_x_x000D_", "中]]>"]), st.integers(250, 24000)),
)

breaks = st.lists(st.sampled_from(["\r\n", "\r", "\n", "\t", "\r\r\n", "\n\r", "\x0b", "\x0c", "\x85", "\u2028", " ", "a", "b", "_x", "é"]), min_size=1, max_size=5).map(lambda p: "a" + "".join(p) + "z")

# ------------------------------------------------------------------------------------ numbers

_small = st.integers(-1000, 1000).map(float)
numbers = st.one_of(
    _small,
    st.integers(-(10**6), 10**6).map(lambda i: i / 100),
    st.integers(-(10**9), 10**9).map(lambda i: i / 10**6),
    st.integers(-(2**53), 2**53).map(float),
    st.floats(allow_nan=False, allow_infinity=False, allow_subnormal=False, width=64),
    st.sampled_from([
        0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 0.3, 1 / 3, 1e15, 1e16, 123456789012345.0, 2.0**53, 2.0**53 + 2, 2.0**62, 2.0**63, -(2.0**63), 1e19,
        1e20, 1e22, 1e100, 1e300, -1e300, 1e-5, 1e-7, 1e-300, 0.30000000000000004, 4.35, 536870911.0, 536870912.0, -536870912.0,
        5368709.11, 44197.0, 44197.5, 2147483647.0, 2147483648.0, -2147483649.0, 4294967296.0, 12345678.125,
    ]),
)  # fmt: skip
ints = st.one_of(_small, st.integers(-(2**40), 2**40).map(float), st.sampled_from([0.0, -0.0, 1.0, 2.0**53, -(2.0**53), 2.0**62, 1e15, 1e18]))


def rk_of_int(i, cents=False):
    return ((i & 0x3FFFFFFF) << 2) | 2 | (1 if cents else 0)


def _rk_finite(raw):
    return raw & 2 or (raw >> 20) & 0x7FF not in (0x7FF,)


rks = st.one_of(
    st.integers(-(2**29), 2**29 - 1).map(rk_of_int),
    st.integers(-1000, 1000).map(rk_of_int),
    st.integers(-(2**29), 2**29 - 1).map(lambda i: rk_of_int(i, True)),
    st.integers(-99999, 99999).map(lambda i: rk_of_int(i, True)),
    st.floats(-1e12, 1e12, allow_nan=False).map(lambda f: struct.unpack("<Q", struct.pack("<d", f))[0] >> 32 & 0xFFFFFFFC),
    st.floats(-1e6, 1e6, allow_nan=False).map(lambda f: struct.unpack("<Q", struct.pack("<d", f))[0] >> 32 & 0xFFFFFFFC | 1),
    st.integers(0, 2**32 - 1).filter(_rk_finite),
)

MS_DAY = 86_400_000
ms_of_day = st.one_of(
    st.integers(0, MS_DAY - 1),
    st.integers(0, 86399).map(lambda s: s * 1000),
    st.sampled_from([0, 1, 999, 1000, 37_815_000, 43_200_000, MS_DAY - 1, MS_DAY - 1000, MS_DAY // 3, 86_399_999]),
)
days = st.one_of(
    st.integers(1, 2_958_465),
    st.binary(min_size=3, max_size=3).map(lambda b: int.from_bytes(b, "big") * 2_958_464 // (2**24 - 1) + 1),
    st.integers(36526, 47000),
    st.integers(1, 100),
    st.sampled_from([1, 2, 58, 59, 60, 61, 62, 366, 367, 25567, 25568, 25569, 25570, 36525, 36526, 44197, 44255, 2_958_465]),
)
serials = st.one_of(
    days.map(float),
    st.builds(o.serial_of, days, ms_of_day),
    st.builds(lambda m: o.serial_of(0, m), ms_of_day),
    st.builds(lambda d, f: d + f, days, st.floats(0, 0.999999, allow_subnormal=False)),
    st.builds(lambda d, f: d + int.from_bytes(f, "big") / 2**40, days, st.binary(min_size=5, max_size=5)),
)

# ------------------------------------------------------------------------------------ format codes

_T_TOKENS = ["d", "dd", "ddd", "dddd", "m", "mm", "mmm", "mmmm", "yy", "yyyy", "h", "hh", "s", "ss", "D", "M", "Y", "YYYY", "H", "S", "DD", "HH", "MM", "MMM", "MMMM", "YY", "SS", "[h]", "[HH]", "[mm]", "[S]"]
_SEPS = ["-", "/", ".", " ", ":", ", ", "\\ ", "\\-", "\\.", '" г."', '"T"', '" at "', "\\T", "\\d", "\\m", "\\y"]
_PRE = ["", "", "_-", "_(", "* ", "_D_M", "*d", '"a;b "', "\\;", "_;", '\\"', '"_"', "[$-409]", "[$;-419]", "[Red]", "[Blue]", "[$-F800]", "[$-x-sysdate]", "[Color10]", "[>0]", '"Date: "', "[Yellow]"]
_TAIL = ["", "", "_)", "_d", "* ", '";"', "\\;", ";;;@", ";0;0;0", ";-0;0.00", ";@", ';"-"', ";[Red]0.00", ";;", ";General", ";0"]


T_FIXED = [
    "dd.mm.yyyy", "yyyy-mm-dd", "yyyy\\-mm\\-dd", "m/d/yy h:mm", "h:mm AM/PM", "mm:ss.0", "[h]:mm:ss", "[hh]:mm", "[mm]:ss", "[m]",
    "[h]", "[ss]", "[s]", "mmm\\-yy", "yyyy", "dd", "ss", "h", "mm", "D.M.YY", "dd/mm/yyyy hh:mm:ss", "[h]\\ ", "hh:mm:ss.000",
    "mm:ss.00", "MM:SS.00", "[SS].00", "S.000", "yyyy-mm-dd hh:mm:ss.000", "[ss].00", "[mm]:ss.000", "ddd", "dddd, d mmmm yyyy", "d", "m", "y", "s",
    "yyyy\"-\"mm\"-\"dd", "[h]:mm", "[s].000",
    "_-yyyy", "d_d", "\\\\d", "\\\\\\dd", "* d", "**d", "__d", "_\"d_\"", "\";\"yyyy", "\\;yyyy", "_;yyyy", "d;0;0;@", "h:mm;0.00;0;@", "[<1]h:mm;yyyy", "[$-409]d\\-mmm;@", "\"0.00\" yyyy", "yyyy\\.00", "[>=1.00]yyyy;0", "AM/PM", "am/pm", "MMMM", "MM", "M", "D", "Y", "S", "H", "\"[x]\"yyyy", "\"[\"d\"]\"", "[H]", "[HH]", "[H]:MM", "[MM]", "[M]", "[SS]", "[S]", "[Hh]", "[mM]", "[HH]:MM:SS",
]  # fmt: skip


@st.composite
def t_codes(draw):
    kind = draw(st.integers(0, 4))
    if kind == 0:
        core = draw(st.sampled_from(T_FIXED))
    else:
        toks = draw(st.lists(st.sampled_from(_T_TOKENS), min_size=1, max_size=4))
        core = toks[0]
        for t in toks[1:]:
            core += draw(st.sampled_from(_SEPS)) + t
    code = draw(st.sampled_from(_PRE)) + core
    if len(code) < 40 and draw(st.integers(0, 9)) == 0:
        # length matters for nothing (a length prefix must not be read as text)
        code += '" ' + "№" * draw(st.integers(1, 200)) + '"'
    return code + draw(st.sampled_from(_TAIL))


N_CODES = [
    "0", "0.00", "#,##0.00", "0.00%", "0.000", "0.0000", "#,##0.00\\ \"руб.\"", "[$-409]0.00", "[Red]0.00", "0.00E+00", "# ##0.00",
    "0.00;[Red]-0.00", "#,##0.00_);(#,##0.00)", "\"d\"0.00", "0.00\\ \\d", "0.00\" days\"", "[$€-2]\\ #,##0.00", "[Yellow]0.00", "[Magenta]0.00",
    "0;-0;0", "0;-0;;@", "0;;;", "0;0;yyyy;@", "_-* #,##0.00_-;-* #,##0.00_-;_-* \"-\"??_-;_-@_-", "#,##0.00_);[Red](#,##0.00)", "0.00_d", "#,##0.00\\ _D_M",
    "_-* #,##0.00\\ _р_._-;-* #,##0.00\\ _р_._-;_-* \"-\"??\\ _р_._-;_-@_-", "0.00;-0.00;\"d\";@", "\";\"0.00", "0.00\\;", "* 0.00", "*d0.00", "\\\"0.00\\\"", "[Red]0.00;[Blue]0.00;0;@",
    "0;-0", "0;d", "0.00;yyyy", "00.000", "\"[\"0.00\"]\"", "\"[d]\"0.00", "[Red]\"[d\"0.00", "0.000000000000000000000000000000",
]  # fmt: skip
U_CODES = [
    "#,##0_d", "#,##0\\ _D_M", "_-* #,##0_-;-* #,##0_-;_-* \"-\"_-;_-@_-", "#,##0_);(#,##0)", "#,##0_);[Red](#,##0)", "*d0.0", "*y#", "0_y_m_d", "\";d\"0.0", "0.0;0.00;0.00;yyyy", "#;yyyy;d;h",
    "\"0.00\"0", "0\\.00", "[>0.00]0", "[<1.005]#;0.00", "General;General;d;@", "\\\\\\d0", "\"\\\"#", "0.0\\\"\\d\\\"", "_\"0.0_\"", "#,##0;[Red]-#,##0;yyyy",
    "0.0", "#,##0", "@", "#", "00000", "0%", "\"days\" 0", "0\\ \\d", "[Red]0", "[Yellow]0.0", "General", "# ?/?", "#,##0;d", "0.0;[Red]yyyy",
    "\\h0", "\"ymdhs\"#", "[$-409]0", "\"" + "d" * 100 + "\"0", "[Magenta]#,##0", "[$USD]\\ 0", "[Cyan]0.0", "0\" шт\"", "\\y\\m\\d0", "000\\-00", "\"[d]\"0", "\"[Red] d\"0", "\"[\"#\"]d\"", "\"[0.00]\"0", "[$d]0", "[$h-409]#",
]  # fmt: skip


def fill(code: str, n: int) -> str:
    return '"' + "№" * n + '"' + code


custom_formats = st.one_of(
    t_codes().map(lambda c: (c, "T")),
    st.sampled_from(N_CODES).map(lambda c: (c, "N")),
    st.sampled_from(U_CODES).map(lambda c: (c, "U")),
    st.builds(lambda c, n: (fill(c, n), "U"), st.sampled_from(["#,##0", "0.0", "#"]), st.integers(1, 240)),
    st.builds(lambda c, n: (fill(c, n), "T"), st.sampled_from(["dd.mm.yyyy", "h:mm", "yyyy"]), st.integers(1, 240)),
)
custom_ids = st.one_of(st.integers(164, 420), st.sampled_from([5, 6, 7, 8, 41, 42, 43, 44, 270, 271, 1000, 3854, 11791, 65000]))


@st.composite
def style_tables(draw, custom=True, big=True):
    """(xfs, fmts, cls, role -> style indices).  Style 0, the one of cells without a style, is General mostly."""
    xfs = [0]
    fmts, cls = {}, {}
    xfs.append(draw(st.sampled_from(N_IDS)))
    xfs.append(draw(st.sampled_from(T_IDS)))
    extra = draw(st.lists(st.sampled_from(N_IDS + T_IDS + U_IDS), max_size=3))
    xfs += extra
    if custom:
        for (code, c), fid in draw(st.lists(st.tuples(custom_formats, custom_ids), max_size=3)):
            if str(fid) not in fmts:
                fmts[str(fid)] = code
                cls[str(fid)] = c
                xfs.append(fid)
    if big and draw(st.integers(0, 7)) == 0:
        tail = xfs[1:]
        xfs = [0] + [0, 2, 14][: draw(st.integers(1, 3))] * draw(st.sampled_from([50, 90, 300])) + tail
    if draw(st.integers(0, 7)) == 0:
        xfs[0] = draw(st.sampled_from([14, 2, 1, 22, 49, xfs[-1]]))
        xfs.append(0)
    roles = {"N": [], "T": [], "U": []}
    for i, fid in enumerate(xfs):
        c = cls.get(str(fid)) or ("T" if fid in o.TEMPORAL_IDS else "N" if fid in o.NUMERIC_IDS else "U")
        roles[c].append(i)
    if len(roles["N"]) > 6:
        roles = {k: v[:2] + v[-4:] for k, v in roles.items()}
    return {"xfs": xfs, "fmts": fmts, "cls": cls, "roles": roles}


# ------------------------------------------------------------------------------------ date texts

DEFAULT_DATE_FMTS = [
    lambda d: f"{d.year:04}-{d.month:02}-{d.day:02}",
    lambda d: f"{d.day:02}/{d.month:02}/{d.year:04}",
    lambda d: f"{d.day:02}.{d.month:02}.{d.year:04}",
    lambda d: f"{d.day:02}-{d.month:02}-{d.year:04}",
]
TWO_DIGIT_FMTS = [
    lambda d: f"{d.day:02}/{d.month:02}/{d.year % 100:02}",
    lambda d: f"{d.day:02}.{d.month:02}.{d.year % 100:02}",
    lambda d: f"{d.day:02}-{d.month:02}-{d.year % 100:02}",
]
TIME_FMTS = [lambda d: f"{d.hour:02}:{d.minute:02}:{d.second:02}", lambda d: f"{d.hour:02}:{d.minute:02}"]

moments = st.one_of(
    st.datetimes(dt.datetime(1900, 1, 1), dt.datetime(9999, 12, 31)),
    st.datetimes(dt.datetime(1000, 1, 1), dt.datetime(1900, 1, 1)),
    st.datetimes(dt.datetime(1990, 1, 1), dt.datetime(2040, 12, 31)),
    st.datetimes(dt.datetime(1969, 12, 1), dt.datetime(1970, 2, 1)),
    st.sampled_from([dt.datetime(1970, 1, 1), dt.datetime(1969, 12, 31, 23, 59, 59), dt.datetime(2000, 2, 29), dt.datetime(1900, 1, 1),
                     dt.datetime(1000, 1, 1), dt.datetime(1582, 10, 4), dt.datetime(1848, 2, 29), dt.datetime(1899, 12, 31), dt.datetime(2021, 5, 5), dt.datetime(1601, 1, 1), dt.datetime(1970, 1, 1, 0, 0, 1)]),
)  # fmt: skip


@st.composite
def date_texts(draw, two_digit=True):
    """(text in a default format, ms it names)"""
    d = draw(moments).replace(microsecond=0)
    kind = draw(st.integers(0, 5))
    if kind == 0:  # bare time
        long = draw(st.booleans())
        d2 = dt.datetime(1970, 1, 1, d.hour, d.minute, d.second if long else 0)
        return TIME_FMTS[0 if long else 1](d2), o.to_ms(d2)
    fmts = DEFAULT_DATE_FMTS
    if two_digit and kind == 1 and 1969 <= d.year <= 2068:
        fmts = TWO_DIGIT_FMTS
    text = draw(st.sampled_from(fmts))(d)
    if draw(st.booleans()):
        sep = draw(st.sampled_from([" ", "T"]))
        long = draw(st.booleans())
        d = d if long else d.replace(second=0)
        return text + sep + TIME_FMTS[0 if long else 1](d), o.to_ms(d)
    d = d.replace(hour=0, minute=0, second=0)
    return text, o.to_ms(d)


# ------------------------------------------------------------------------------------ cells

def vary(proto, row, spec):
    """The cell a prototype makes in a given row."""
    c = {k: v for k, v in proto.items() if k != "step"}
    step = proto.get("step", 0)
    k = c["k"]
    if k == "n" and step and "rk" not in c and "txt" not in c:
        v = c["v"] + step * row
        if abs(v) < 1e15:
            c["v"] = v
    elif k == "s" and step:
        n = len(spec["sst"])
        c["v"] = (c["v"] + step * row) % n
    elif k in ("t", "i") and step and "runs" not in c:
        c["v"] = f"{c['v']}{row}"
    return c


@st.composite
def number_cells(draw, styles, date=False, values=None, rk=True):
    if date:
        s = draw(st.sampled_from(styles["T"]))
        kind = draw(st.integers(0, 5)) if rk else 0
        if kind == 5:
            raw = draw(st.integers(1, 2_958_465)) << 2 | 2
            return {"k": "n", "v": rk_value(raw), "rk": raw, "s": s}
        v = draw(serials)
        step = draw(st.sampled_from([0, 0, 1])) if v > 1 and v < 2_900_000 else 0
        return {"k": "n", "v": v, "s": s, "step": step}
    s = draw(st.sampled_from(styles["N"]))
    kind = draw(st.integers(0, 3)) if rk and values is None else 0
    if kind == 3:
        raw = draw(rks)
        return {"k": "n", "v": rk_value(raw), "rk": raw, "s": s}
    v = draw(values if values is not None else numbers)
    c = {"k": "n", "v": v, "s": s, "step": draw(st.sampled_from([0, 1, 1]))}
    if draw(st.integers(0, 7)) == 0:
        c["f"] = 1
    return c


@st.composite
def text_cells(draw, spec, allow_inline=True, pool=None):
    k = draw(st.sampled_from("ssti" if allow_inline else "sst"))
    if k == "s":
        return {"k": "s", "v": draw(st.integers(0, max(len(spec["sst"]) - 1, 0))), "step": draw(st.sampled_from([0, 1, 1, 2])), "s": 0}
    v = draw(pool if pool is not None else texts)
    c = {"k": k, "v": v, "step": draw(st.integers(0, 1))}
    if k == "i" and draw(st.integers(0, 3)) == 0 and len(v) > 1 and "_x" not in v:
        if draw(st.booleans()):
            v = c["v"] = clean(draw(phrases)) or v
        if "_x" not in v:
            c["runs"] = draw(split_runs(v))
        c["ph"] = draw(st.booleans())
        c["step"] = 0
    return c


@st.composite
def sst_items(draw, pool=texts):
    kind = draw(st.integers(0, 11))
    if kind == 0:
        return ""
    if kind == 1:
        return draw(st.sampled_from(ERR_LIST))
    if kind == 2:
        return draw(st.sampled_from(EDGE_WS))
    if kind in (3, 4):
        t = clean(draw(phrases))
        parts = draw(split_runs(t))
        if "_x" in t or not t:
            return t
        return {"runs": parts, "ph": draw(st.sampled_from([None, None, "フリガナ"]))}
    return draw(pool)


phrases = st.lists(st.tuples(st.sampled_from(["", " ", "  ", "\n", "\t", " \n ", "\u00a0", "   "]), st.one_of(_word, st.sampled_from(["a", "b", "1", "#N/A", "é"]))).map("".join), min_size=1, max_size=5).map("".join)


@st.composite
def split_runs(draw, v):
    """The text as the runs of a rich text: cut anywhere, words and white space apart, single characters, empty runs."""
    mode = draw(st.integers(0, 3))
    if mode == 0:
        cuts = sorted(draw(st.lists(st.integers(0, len(v)), min_size=1, max_size=4)))
    elif mode == 1:
        cuts = [m.start() for m in re.finditer(r"(?<=\s)(?=\S)|(?<=\S)(?=\s)", v)]
    elif mode == 2:
        cuts = list(range(1, min(len(v), 12 if draw(st.integers(0, 7)) else 400)))
    else:
        cuts = [draw(st.integers(0, len(v)))]
    ends = [0, *cuts, len(v)]
    runs = [v[a:b] for a, b in zip(ends, ends[1:])]
    return runs if "_x" not in v else [v]


PROFILES = ["num", "num", "int", "date", "date", "text", "text", "general", "mixed", "bool", "sparse"]


@st.composite
def columns(draw, spec, roles, nrows, profiles=PROFILES, fmt="xlsx", date_text=(), num_text=()):
    """One column: list of nrows cells (without column index) or None."""
    prof = draw(st.sampled_from(profiles))
    pal = []

    def add(strategy, n=1):
        for _ in range(n):
            pal.append(draw(strategy))

    tpool = texts
    if prof in ("num", "sparse"):
        add(number_cells(roles), 2)
    elif prof == "int":
        add(number_cells(roles, values=ints), 2)
    elif prof == "date":
        add(number_cells(roles, date=True), 2)
    elif prof == "text":
        add(text_cells(spec), 2)
    elif prof == "general":
        s = draw(st.sampled_from(roles["U"]))
        c = {"k": "n", "v": draw(numbers), "s": s, "step": 1}
        if draw(st.integers(0, 3)) == 0:
            c["txt"] = draw(st.sampled_from(["1.10", "1E2", "0.50", "007", "1.0", "-0"]))
            c["v"] = float(c["txt"])
        pal.append(c)
        add(text_cells(spec))
    elif prof == "bool":
        pal.append({"k": "b", "v": True, "s": draw(st.sampled_from(roles["N"] + roles["T"]))})
        pal.append({"k": "b", "v": False, "s": pal[0]["s"], "f": 1})
        if draw(st.booleans()):
            add(number_cells(roles, values=ints))
    elif prof == "boolU":
        s = draw(st.sampled_from(roles["U"]))
        pal.append({"k": "b", "v": True, "s": s})
        pal.append({"k": "b", "v": False, "s": s})
    else:
        which = draw(st.lists(st.sampled_from(["num", "date", "text", "bool", "dtext", "ntext"]), min_size=2, max_size=4))
        for w in which:
            if w == "num":
                add(number_cells(roles))
            elif w == "date":
                add(number_cells(roles, date=True))
            elif w == "bool":
                pal.append({"k": "b", "v": True, "s": draw(st.sampled_from(roles["N"] + roles["T"]))})
            elif w == "dtext" and date_text:
                pal.append({"k": draw(st.sampled_from("ti")), "v": draw(st.sampled_from(list(date_text)))})
            elif w == "ntext" and num_text:
                pal.append({"k": draw(st.sampled_from("ti")), "v": draw(st.sampled_from(list(num_text)))})
            else:
                add(text_cells(spec, pool=tpool))
    if draw(st.integers(0, 3)) == 0:
        pal.append({"k": "e", "v": draw(st.sampled_from(ERR_CODES))})
        pal.append({"k": "z", "s": draw(st.sampled_from(roles["T"] + roles["N"]))})
        if draw(st.booleans()):
            pal[-1]["f"] = draw(st.integers(1, 3))
    n = len(pal)
    mode = draw(st.integers(0, 2))
    if mode == 0:  # anything anywhere
        nul = 1 if prof != "sparse" else 2 * n
        idx = draw(st.lists(st.integers(0, n - 1 + nul), min_size=nrows, max_size=nrows))
    else:  # runs, with leading and trailing gaps
        idx = [n] * draw(st.integers(0, min(3, nrows) if mode == 1 else nrows))
        while len(idx) < nrows:
            j = draw(st.integers(-1, n))
            if j == -1:
                break
            idx += [j] * draw(st.integers(1, 5))
        idx = (idx + [n] * nrows)[:nrows]
    out = []
    for r, i in enumerate(idx):
        out.append(vary(pal[i], r, spec) if i < n else None)
    return out


SER_KEYS = [
    "pretty", "vspace", "attr_rev", "junk", "charref", "cdata", "bom", "comment", "row_long", "tn", "si_empty", "abs_target",
    "rels_rev", "rels_first", "file_rev", "no_sst", "no_styles", "stored", "zip_rev", "no_c_r", "bare_xf", "esc_ws", "no_row_r", "explicit_s",
    "extra_attrs", "formulas", "cell_ext", "vendor",
]  # fmt: skip


# record types a reader of a part may pass over; those whose low seven bits are those of a cell, a string, a format, an end
NOISE_IDS = [20, 21, 34, 35, 38, 49, 50, 64, 100, 127, 128 + 5, 128 + 6, 135, 147, 172, 175, 256 + 5, 256 + 7, 256 + 19, 256 + 16, 256 + 62, 300, 384 + 19, 384 + 44, 384 + 47, 512, 512 + 19, 640, 1024, 1024 + 7, 2048, 4096 + 19, 8192 + 44, 16383]
noise_ids = st.lists(st.sampled_from(NOISE_IDS), min_size=1, max_size=5)


@st.composite
def sers(draw, rate=3):
    ser = {}
    if draw(st.integers(0, rate)) == 0:
        for k in draw(st.lists(st.sampled_from(SER_KEYS), max_size=5, unique=True)):
            ser[k] = 1
        if draw(st.integers(0, 3)) == 0:
            ser.update(draw(st.sampled_from([{"no_c_r": 1}, {"no_row_r": 1}, {"no_c_r": 1, "no_row_r": 1}])))
        if draw(st.integers(0, 5)) == 0:
            ser["enc"] = "UTF-16"
            ser.pop("bom", None)
        if draw(st.integers(0, 3)) == 0:
            ser["counts"] = draw(st.integers(1, 3))
        if draw(st.integers(0, 2)) == 0:
            ser["esc_case"] = draw(st.integers(1, 3))
        if draw(st.integers(0, 5)) == 0:
            ser["noise"], ser["noise_ids"] = 1, draw(noise_ids)
        if draw(st.integers(0, 3)) == 0:
            ser["dots"] = draw(st.integers(1, 3))
        if draw(st.integers(0, 5)) == 0:
            ser["decoys"] = draw(st.integers(1, 2))
        if draw(st.integers(0, 1)) == 0:
            ser["apply_nf"] = draw(st.integers(1, 2))
        if draw(st.integers(0, 3)) == 0:
            ser["rid_off"] = draw(st.sampled_from([1, 2, 7, 100]))
        if draw(st.integers(0, 5)) == 0:
            ser["rids"] = [draw(st.sampled_from(["R1", "rId9010", "_", "Ид1", "R0a9f3be17d2c4e55", "rid902"]))]
    if draw(st.integers(0, 3)) == 0:
        ser["cellstylexfs"] = draw(st.integers(1, 40))
    return ser


HEADER_WORDS = ["id", "name", "Price", "Date of birth", "q", "Итого", "amount (€)", "x.y", "a", "b", "a.1", "total", "naïve", "col", "№ п/п", "id.1", "a b c"]
header_texts = st.one_of(
    st.sampled_from(HEADER_WORDS),
    st.text(st.sampled_from("abcdefgXYZ 0129_-()%№é中😀"), max_size=10).map(lambda s: "h" + s.strip()),
)


@st.composite
def body_rows(draw, spec, roles, cols, nrows, **kw):
    vecs = [draw(columns(spec, roles, nrows, **kw)) for _ in cols]
    rows = []
    for r in range(nrows):
        cells = []
        for c, vec in zip(cols, vecs):
            if vec[r] is not None:
                cells.append({"c": c, **vec[r]})
        rows.append({"cells": cells})
    return rows


@st.composite
def empties(draw, rows, rate=2):
    """Puts empty rows (without cells, or with blank and error cells only) between the given rows."""
    if draw(st.integers(0, rate)):
        return rows
    out = []
    for r in rows:
        k = draw(st.integers(0, 5))
        if k == 5:
            out.append({"cells": []})
        elif k == 4:
            out.append({"cells": [{"c": draw(st.integers(0, 3)), "k": "z", "s": 1}], "rep": draw(st.integers(1, 3))})
        out.append(r)
    out += [{"cells": []}] * draw(st.integers(0, 2))
    return out


col_sets = st.one_of(
    st.lists(st.integers(0, 6), min_size=1, max_size=5, unique=True),
    st.lists(st.sampled_from(SPECIAL_COLS), min_size=1, max_size=5, unique=True),
).map(sorted)


@st.composite
def base_spec(draw, fmts=("xlsx", "xlsb"), custom=True, sst_pool=texts, ser=True, min_sst=1, max_sst=8):
    stl = draw(style_tables(custom=custom))
    roles = stl.pop("roles")
    spec = {"fmt": draw(st.sampled_from(fmts)), "sheets": [], "sst": draw(st.lists(sst_items(sst_pool), min_size=min_sst, max_size=max_sst)), **stl}
    spec["ser"] = draw(sers()) if ser else {}
    return spec, roles


@st.composite
def sheet_case(
    draw, fmts=("xlsx", "xlsb"), profiles=PROFILES, max_rows=10, min_rows=1, header=False, custom=True, sst_pool=texts, ser=True,
    cols=col_sets, with_dates=False, with_empty=True, gaps=False, max_sst=8,
):  # fmt: skip
    """{"spec", "kw", "sheet"} with one sheet; `header` = number of header rows to write (0, 1, ...)."""
    spec, roles = draw(base_spec(fmts, custom, sst_pool, ser, max_sst=max_sst))
    dts = {}
    if with_dates:
        dts = dict(draw(st.lists(date_texts(), min_size=1, max_size=4)))
        spec["dt"] = dts
    cs = draw(cols)
    n = draw(st.integers(min_rows, max_rows))
    rows = draw(body_rows(spec, roles, cs, n, profiles=profiles, fmt=spec["fmt"], date_text=sorted(dts), num_text=NUM_TEXTS if with_dates else ()))
    if with_empty:
        rows = draw(empties(rows))
    if gaps and draw(st.booleans()) and rows:
        i = draw(st.integers(0, len(rows) - 1))
        rows = [dict(r) for r in rows]
        rows[i]["gap"] = draw(st.integers(1, 5))
    head = []
    for _ in range(header):
        cells = []
        for c in cs:
            if draw(st.integers(0, 5)) or header == 1:
                cells.append({"c": c, "k": draw(st.sampled_from("ti")), "v": draw(header_texts)})
        head.append({"cells": cells})
    spec["sheets"] = [{"name": "Sheet1", "rows": head + rows}]
    return {"spec": spec, "kw": {}, "sheet": 0}, roles


def plain(case_roles):
    return case_roles[0]


# ------------------------------------------------------------------------------------ sheets with headers and options

HTEXT = st.one_of(st.sampled_from(HEADER_WORDS), header_texts)


@st.composite
def preambles(draw, spec, cs, maxn=3):
    rows = []
    for _ in range(draw(st.integers(0, maxn))):
        k = draw(st.integers(0, 3))
        if k == 0:
            rows.append({"cells": []})
        else:
            cols = draw(st.lists(st.sampled_from(cs), min_size=1, max_size=len(cs), unique=True).map(sorted))
            rows.append({"cells": [{"c": c, "k": draw(st.sampled_from("ti")), "v": draw(st.sampled_from(["title", "Report", "x", "2021", "по состоянию"]))} for c in cols[:2]]})
    return rows


@st.composite
def header_rows(draw, cs, height, roles, text_only=False):
    rows = []
    for h in range(height):
        cells = []
        for c in cs:
            k = draw(st.integers(0, 9))
            if k == 0 or (k <= 4 and height > 1):
                continue
            if k == 5 and not text_only:
                cells.append({"c": c, "k": "n", "v": draw(st.sampled_from([1.0, 2020.0, 2021.0, 1.5, 0.1, 10.0, 123456789.0, -3.0])), "s": roles["N"][0]})
            elif k == 6 and not text_only and draw(st.booleans()):
                cells.append({"c": c, "k": "n", "v": float(draw(st.integers(36526, 47000))), "s": roles["T"][0]})
            else:
                cells.append({"c": c, "k": draw(st.sampled_from("ti")), "v": draw(HTEXT)})
        rows.append({"cells": cells})
    return rows


def sub_words(s):
    import re

    return re.escape(s)


NULL_CHOICES = [["x", "xx"], ["1", "2", "0", "12", "0.5"], "pred:len1", ["-", "n/a", "N/A"], ["a"], [], "pred:startswith-x", "pred:dash", "pred:never", "pred:re", "pred:count"]


@st.composite
def option_case(
    draw, fmts=("xlsx", "xlsb"), opts=("header", "lookup", "skip_rows", "take_rows", "after", "skip_cols", "filters", "conflict", "prec", "nulls"),
    profiles=PROFILES, max_rows=8, min_rows=0, cols=col_sets, heights=(0, 1, 1, 1, 2, 3), text_only=False, sst_pool=texts, custom=True, ser=True,
    always=(), with_dates=None, max_pre=3,
):  # fmt: skip
    """A sheet laid out as preamble, header, body, with a drawn set of options."""
    spec, roles = draw(base_spec(fmts, custom, sst_pool, ser))
    on = {o_ for o_ in opts if o_ in always or draw(st.integers(0, 2)) == 0}
    dts = {}
    if with_dates or (with_dates is None and "conflict" in on):
        dts = dict(draw(st.lists(date_texts(), min_size=1, max_size=3)))
        spec["dt"] = dts
    cs = draw(cols)
    height = draw(st.sampled_from(heights)) if "header" in opts else 0
    pre = draw(preambles(spec, cs, max_pre)) if on & {"lookup", "skip_rows"} else []
    head = draw(header_rows(cs, height, roles, text_only or bool(on & {"lookup", "filters"})))
    n = draw(st.integers(min_rows, max_rows))
    body = draw(body_rows(spec, roles, cs, n, profiles=profiles, fmt=spec["fmt"], date_text=sorted(dts), num_text=NUM_TEXTS if dts else ()))
    body = draw(empties(body, 1))
    spec["sheets"] = [{"name": "Sheet1", "rows": pre + head + body}]
    kw = {}
    if "header" in on or ("header" in opts and height):
        form = draw(st.sampled_from(["n", "n", "n", "n", "list", "other", "true"]))
        if form == "n":
            kw["header"] = height
        elif form == "true":
            kw["header"] = True
        elif form == "other":
            kw["header"] = draw(st.integers(0, 4))
        else:
            m = len(cs) + draw(st.sampled_from([0, 0, 0, 0, 0, -1, 1]))
            kw["header"] = [f"col{i}" for i in range(m)]
    hdr = kw.get("header", 0)
    top = {c["c"]: c["v"] for c in (head[0]["cells"] if head else []) if c["k"] in "ti"}
    if "lookup" in on:
        form = draw(st.sampled_from(["re", "re", "re", "re", "re", "re", "int", "int", "int", "miss"]))
        if form == "re" and top:
            h = top[draw(st.sampled_from(sorted(top)))]
            kw["lookup_head"] = draw(st.sampled_from(["^" + sub_words(h) + "$", sub_words(h), "^" + sub_words(h[: max(1, len(h) // 2)])]))
        elif form == "int":
            kw["lookup_head"] = draw(st.sampled_from(cs * 4 + [draw(st.sampled_from(SPECIAL_COLS))]))
        else:
            kw["lookup_head"] = draw(st.sampled_from(["zzzz-no-such", "title", "^Report$", "x"]))
        if draw(st.booleans()):
            kw["lookup_size"] = draw(st.sampled_from([1, 2, 3, 4, 5, 5, 6, 30, 1000]))
    if "skip_rows" in on:
        kw["skip_rows"] = draw(st.sampled_from([len(pre), len(pre), 0, 1, 2, 3, 7]))
    if "take_rows" in on:
        if draw(st.integers(0, 3)):
            kw["take_rows"] = draw(st.integers(0, max_rows + 3))
        if draw(st.booleans()):
            kw["take_rows_non_empty"] = draw(st.booleans())
    if "after" in on and not isinstance(hdr, list) and int(hdr) >= 1:
        kw["skip_rows_after_header"] = draw(st.integers(0, 4))
    if "skip_cols" in on:
        kw["skip_cols"] = draw(st.lists(st.sampled_from(cs + [0, 3, 26, 100]), max_size=3, unique=True))
    if "filters" in on:
        names = sorted(set(top.values())) if not isinstance(hdr, list) else hdr
        pats = ["^" + sub_words(x) + "$" for x in names] + [sub_words(x) for x in names if x[-1:].isalpha()]
        if pats and (isinstance(hdr, list) or int(hdr) > 0) and draw(st.booleans()):
            p = draw(st.lists(st.sampled_from(pats + ["nothing-like-this$"]), min_size=1, max_size=3, unique=True))
            kw["row_filters"] = p[0] if len(p) == 1 and draw(st.booleans()) else p
        else:
            kw["row_filters"] = draw(st.lists(st.integers(0, len(cs)), min_size=1, max_size=4, unique=True))
        s = draw(st.integers(0, 3))
        if s == 1:
            kw["row_filters_strategy"] = draw(st.sampled_from(["or", "and"]))
        elif s >= 2:
            kw["row_filters_strategy"] = draw(st.lists(st.sampled_from(["or", "and"]), min_size=0, max_size=3))
            if isinstance(kw["row_filters"], list) and draw(st.integers(0, 3)):
                k = len(kw["row_filters"]) - 1
                kw["row_filters_strategy"] = (kw["row_filters_strategy"] + ["and", "or", "and"])[:k]
    if "conflict" in on:
        kw["conflict_resolve"] = draw(st.sampled_from(["no", "temporal", "numeric", "all"]))
    if "prec" in on:
        kw["float_precision"] = draw(st.sampled_from([0, 1, 2, 3, 6, 10, 15]))
    if "nulls" in on:
        kw["null_values"] = draw(st.sampled_from(NULL_CHOICES))
    return {"spec": spec, "kw": kw, "sheet": 0}


@st.composite
def scaled(draw, cases, rate=6):
    """The same cases, some of them moved to other scales: columns further right, more strings or styles before the used ones, long gaps, many rows."""
    case = draw(cases)
    if draw(st.integers(0, rate - 1)) != 0:
        return case
    case = copy.deepcopy(case)
    spec, kw = case["spec"], case.get("kw", {})
    rows = spec["sheets"][0]["rows"]
    for how in draw(st.lists(st.sampled_from(["cols", "sst", "xfs", "gap", "long"]), min_size=1, max_size=2, unique=True)):
        cells = [c for r in rows for c in r["cells"]]
        if how == "cols" and cells:
            k = draw(st.sampled_from([1, 8, 23, 26, 30, 100, 250, 256, 700, 16000]))
            if max(c["c"] for c in cells) + k < 16384:
                for c in cells:
                    c["c"] += k
                if "skip_cols" in kw:
                    kw["skip_cols"] = [x + k for x in kw["skip_cols"]]
                if isinstance(kw.get("lookup_head"), int):
                    kw["lookup_head"] += k
        elif how == "sst":
            k = draw(st.sampled_from([1, 9, 10, 99, 127, 128, 255, 256, 300, 1000, 1024]))
            fill = draw(st.lists(st.sampled_from(["unused", "", "#N/A", " ", "x", "_x0041_", "12"]), min_size=1, max_size=3))
            spec["sst"] = (fill * k)[:k] + spec["sst"]
            for c in cells:
                if c["k"] == "s":
                    c["v"] += k
        elif how == "xfs" and spec.get("xfs"):
            k = draw(st.sampled_from([1, 9, 10, 99, 127, 128, 255, 256, 300]))
            fill = draw(st.lists(st.sampled_from([14, 2, 0, 22, 49]), min_size=1, max_size=3))
            spec["xfs"] = spec["xfs"][:1] + (fill * k)[:k] + spec["xfs"][1:]
            for c in cells:
                if c.get("s"):
                    c["s"] += k
        elif how == "gap" and rows:
            i = draw(st.integers(0, len(rows) - 1))
            rows[i]["gap"] = rows[i].get("gap", 0) + draw(st.sampled_from([1, 7, 64, 255, 256, 1000, 1500]))
        elif how == "long" and rows:
            m = draw(st.integers(1, len(rows)))
            k = draw(st.sampled_from([1, 2, 5, 10, 40]))
            for _ in range(min(k, 160 // m)):
                rows.extend(copy.deepcopy(rows[-m:]) if m < len(rows) else copy.deepcopy(rows[:m]))
    return case
