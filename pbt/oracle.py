"""Reference reader: what `read` must return for a workbook spec and keyword arguments.

Works on the JSON spec only.  Where several answers are right, the expectation is a predicate.
"""
from __future__ import annotations

import datetime as dt
import math
import re
import zlib
from fractions import Fraction

from .wb import expand_rows, num_text, sst_text

ERRORS = frozenset(
    "#NULL! #DIV/0! #VALUE! #REF! #NAME? #NUM! #N/A #GETTING_DATA".split()
    + "#ДЕЛ/0! #ЗНАЧ! #ССЫЛКА! #ИМЯ? #ЧИСЛО! #Н/Д".split()  # noqa: RUF001
)
TEMPORAL_IDS = frozenset([*range(14, 23), 45, 46, 47])
NUMERIC_IDS = frozenset([1, 2, 3, 4, 37, 38, 39, 40, 48])
DAY = 86_400_000
NUMERIC_RE = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE]-?[0-9]+)?\Z")
MAYBE_NUMERIC_RE = re.compile(r"(?i)\s*[-+]?(\d[\d_]*\.?\d*|\.\d+|inf|infinity|nan|0x[0-9a-f]+)(e[-+]?\d+)?\s*\Z")


class Unspecified(Exception):
    """The reference reader does not say what should happen (accept anything that is not a crash)."""


class Reject(Exception):
    """The read must raise."""


# ---------------------------------------------------------------------------- single cells


def style_class(spec, s) -> str:
    """T date/time, N number, U unrecognised."""
    fid = spec["xfs"][s]
    cls = spec.get("cls", {}).get(str(fid))
    if cls is None:
        cls = "T" if fid in TEMPORAL_IDS else "N" if fid in NUMERIC_IDS else "U"
    if cls == "U" and spec["fmt"] == "xlsb":
        return "N"
    return cls


def null_pred(kw):
    nv = kw.get("null_values")
    if nv is None:
        return lambda s: s in ERRORS
    if isinstance(nv, list):
        ns = set(nv)
        return lambda s: s in ERRORS or s in ns
    f = PREDICATES[nv]
    return lambda s: s in ERRORS or f(s)


PREDICATES = {
    "pred:startswith-x": lambda s: s.startswith("x"),
    "pred:len1": lambda s: len(s) == 1,
    "pred:never": lambda s: False,
    # half of all texts with a letter, no numbers: a text that is not exact shows
    "pred:hash": lambda s: any(c.isalpha() and c not in "eE" for c in s) and zlib.crc32(s.encode()) % 2 == 0,
    # true without being True
    "pred:re": re.compile(r"x+$|-+$|.*\t").match,
    "pred:count": lambda s: s.count("x") + 2 * s.count("\xa0"),
    "pred:spaced": lambda s: s != s.strip(),
    "pred:dash": lambda s: s in ("-", "n/a", "--"),
}


def cell_value(cell, spec, isnull):
    k = cell["k"]
    xlsx = spec["fmt"] == "xlsx"
    if k in ("e", "z"):
        return None
    if k in ("s", "t", "i"):
        text = sst_text(spec["sst"][cell["v"]]) if k == "s" else cell["v"]
        if xlsx:
            text = text.strip()
            if not text:
                return None
        return None if isnull(text) else ("S", text)
    v = float(cell["v"])
    cls = style_class(spec, cell.get("s", 0))
    if k == "b":
        if xlsx and cls == "U":
            return None if isnull("1" if v else "0") else ("S", "1" if v else "0")
        return ("N", v)  # never a date
    if cls == "U":
        t = num_text(cell)
        return None if isnull(t) else ("S", t)
    return (cls, v)


# ---------------------------------------------------------------------------- dates


def serial_ms(s: float) -> Fraction:
    f = Fraction(s)
    if s < 1:
        return f * DAY
    return (f - (25568 if s < 60 else 25569)) * DAY


def ms_ok(got: int, s: float) -> bool:
    return abs(Fraction(got) - serial_ms(s)) <= Fraction(54, 100)


def serial_of(days: int, ms: int) -> float:
    """The double a spreadsheet stores for a day number and a time of day."""
    return float(Fraction(days) + Fraction(ms, DAY))


EPOCH = dt.datetime(1970, 1, 1)


def to_ms(d: dt.datetime) -> int:
    return (d - EPOCH) // dt.timedelta(milliseconds=1)


def iso_ms(text: str):
    m = re.fullmatch(r"(-?\d{4,})-(\d\d)-(\d\d)(?:[ T](\d\d):(\d\d):(\d\d)(?:\.(\d+))?)?", text)
    if not m:
        return None
    # proleptic: a year outside 1..9999 is shifted by whole cycles of 400 years (146097 days)
    year = int(m[1])
    cycles = 0 if 1 <= year <= 9999 else (year - 2000) // 400
    try:
        d = dt.datetime(year - 400 * cycles, int(m[2]), int(m[3]), int(m[4] or 0), int(m[5] or 0), int(m[6] or 0))
    except ValueError:
        return None
    frac = (m[7] or "").ljust(3, "0")
    if frac[3:].strip("0"):
        return None
    return to_ms(d) + cycles * 146097 * 86400000 + int(frac[:3] or 0)


# ---------------------------------------------------------------------------- columns


LOOSE_DATE = re.compile(r"\s*\d{1,4}([-./])\d{1,2}\1\d{1,4}([ T]\d{1,2}:\d{1,2}(:\d{1,2})?)?\s*\Z|\s*\d{1,2}:\d{1,2}(:\d{1,2})?\s*\Z")
FULL_DATE = re.compile(r"(\d{4})-(\d\d)-(\d\d)|(\d\d)([-./])(\d\d)\5(\d{4}|\d\d)")


def odd_date(t: str, dates) -> bool:
    """Date-like text the generator did not make (1.2.3, 0:1, ...): the statement leaves it open."""
    if t in dates or not LOOSE_DATE.match(t):
        return False
    m = FULL_DATE.match(t)
    if not m or len(t) not in (8, 10, 14, 16, 17, 19):
        return True
    y, mo, d = (m[1], m[2], m[3]) if m[1] else (m[7], m[6], m[4])
    try:
        dt.date(int(y) if len(y) == 4 else 2000 + int(y), int(mo), int(d))
        hms = [int(x) for x in re.findall(r"\d\d", t[len(m[0]):])]
        dt.time(*hms) if hms else None
    except ValueError:
        return False
    return True


def int_rule(v: float, p: int):
    """True / False / None (either is right) for "rounding to p digits equals truncating"."""
    if not abs(v) < 2.0**63:
        return False
    frac = abs(Fraction(v) - math.trunc(v))
    half = Fraction(1, 2 * 10**p)
    noise = Fraction(abs(v)) / 2**50 + Fraction(1, 10**17)
    if frac == 0:
        return None if p and abs(v) * 10**p > 2**52 else True
    if abs(frac - half) <= noise:
        return None
    if abs(v) * 10**p > 2**52:
        return None if frac < half else False
    return frac < half


def column_exp(cells, kw, spec):
    """Acceptable outcomes of a column: list of (type name, [cell]) where cell = None|(how, value)."""
    kinds = {c[0] for c in cells if c is not None}
    mode = kw.get("conflict_resolve", "no")
    prec = kw.get("float_precision", 6)
    dates = spec.get("dt", {})

    def text():
        return ("large_string", [None if c is None else ("text", c) for c in cells])

    def num(vals):
        rules = {int_rule(v, prec) for v in vals if v is not None}
        out = []
        if False not in rules:
            out.append(("int64", [None if v is None else ("int", v) for v in vals]))
        if rules - {True}:
            out.append(("double", [None if v is None else ("f8", v) for v in vals]))
        return out

    def stamps(f):
        return ("timestamp[ms]", [None if c is None else f(c) for c in cells])

    if kinds <= {"S"}:
        return [text()]
    if kinds == {"N"}:
        return num([None if c is None else c[1] for c in cells])
    if kinds == {"T"}:
        return [stamps(lambda c: ("serial", c[1]))]
    svals = [c[1] for c in cells if c is not None and c[0] == "S"]
    all_num = all(NUMERIC_RE.match(s) for s in svals)
    maybe_num = all(MAYBE_NUMERIC_RE.match(s) for s in svals)
    if "T" in kinds:
        if mode not in ("temporal", "all"):
            return [text()]
        if any(c is not None and c[0] == "N" and abs(c[1]) > 2958466 for c in cells):
            raise Unspecified
        if any(odd_date(s, dates) for s in svals):
            raise Unspecified
        all_date = all(s in dates for s in svals)
        if all_date:
            return [stamps(lambda c: ("ms", dates[c[1]]) if c[0] == "S" else ("serial", c[1]))]
        if mode == "temporal":
            return [text()]
        if any(NUMERIC_RE.match(s) and abs(float(s)) > 2958466 for s in svals):
            raise Unspecified
        if all(s in dates or NUMERIC_RE.match(s) for s in svals):
            conv = stamps(
                lambda c: (("ms", dates[c[1]]) if c[1] in dates else ("serial", float(c[1]))) if c[0] == "S" else ("serial", c[1])
            )
            if any(s in dates for s in svals):
                return [conv, text()]  # decided run by run: both are right
            return [conv]
        if all(s in dates or MAYBE_NUMERIC_RE.match(s) for s in svals):
            raise Unspecified
        return [text()]
    # numbers and text
    if mode in ("numeric", "all"):
        if all_num:
            return num([None if c is None else float(c[1]) for c in cells])
        if maybe_num:
            raise Unspecified
    return [text()]


def text_ok(got: str, c) -> bool:
    kind, v = c
    if kind == "S":
        return got == v
    if kind == "N":
        try:
            return float(got) == v
        except ValueError:
            return False
    ms = iso_ms(got)
    if ms is None:
        return abs(v) > 2958466
    return ms_ok(ms, v)


def value_ok(got, e) -> bool:
    if e is None or got is None:
        return e is None and got is None
    how, v = e
    if how == "text":
        return isinstance(got, str) and text_ok(got, v)
    if how == "int":
        return isinstance(got, int) and got == math.trunc(v)
    if how == "f8":
        return isinstance(got, float) and got == v
    if how == "serial":
        return isinstance(got, int) and ms_ok(got, v)
    if how == "ms":
        return isinstance(got, int) and got == v
    raise AssertionError(how)


def pylist(col):
    """Column as Python values; timestamps as integers."""
    import pyarrow as pa

    if pa.types.is_timestamp(col.type) or pa.types.is_date64(col.type):
        col = col.cast(pa.int64())
    elif pa.types.is_time32(col.type):
        col = col.cast(pa.int32())
    return col.to_pylist()


# ---------------------------------------------------------------------------- names


def part_ok(got: str, c, prec=6) -> bool:
    kind, v = c
    if kind == "N" and float(v).is_integer() and abs(v) < 1e15:
        return got == str(int(v)) or (v == 0 and got == "-0") or ("e" in got and text_ok(got, c))
    if kind == "N" and int_rule(v, prec) is not False and got == str(math.trunc(v)):
        return True  # a number that float_precision makes an integer
    return text_ok(got, c)


def base_exact(parts):
    """The header text if it is fully determined (text parts only), else None."""
    if not parts:
        return "Unnamed"
    if all(k == "S" for k, _ in parts):
        t = ", ".join(v for _, v in parts if v)
        return t or "Unnamed"
    return None


def names_ok(got: list[str], bases, prec=6):
    if len(got) != len(bases):
        return f"{len(got)} columns instead of {len(bases)}: {got!r}"
    if len(set(got)) != len(got):
        return f"column names are not unique: {got!r}"
    seen = set()
    exact = [None if parts is None else base_exact(parts) for parts in bases]
    plain = None not in exact and not any(re.search(r"\.\d+\Z", e) for e in exact)  # no name looks like one with a suffix
    counts = {}
    for g, parts, ex in zip(got, bases, exact):
        if parts is None:
            seen.add(g)
            continue
        if ex is not None:
            n = counts[ex] = counts.get(ex, -1) + 1
            ok = g == ex if ex not in seen else g == f"{ex}.{n}" if plain else re.fullmatch(re.escape(ex) + r"(\.\d+)+", g, re.S) is not None
            if not ok:
                return f"column name {g!r}, expected {ex!r}" + (" with a suffix" if ex in seen else "") + f" in {got!r}"
        else:
            cands = [g]
            m = re.fullmatch(r"(.*?)((?:\.\d+)+)", g, re.S)
            if m:
                sfx = m[2].split(".")[1:]
                cands += [g[: -len("." + ".".join(sfx[i:]))] for i in range(len(sfx))]
            parts = [x for x in parts if x != ("S", "")]
            rx = re.compile(", ".join("(" + re.escape(v) + ")" if k == "S" else "([^,]+)" for k, v in parts) + r"\Z", re.S)
            for cand in cands:
                m = rx.match(cand)
                if m and all(part_ok(p, c, prec) for p, c in zip(m.groups(), parts)):
                    break
            else:
                return f"column name {g!r} does not show {parts!r}"
        seen.add(g)
    return None


# ---------------------------------------------------------------------------- whole reads


OMITTED: dict = {}  # a row that is not in the file


def kept_rows(spec, sheet, kw):
    isnull = null_pred(kw)
    skip_cols = set(kw.get("skip_cols") or [])
    ne = kw.get("take_rows_non_empty", False)
    take = kw.get("take_rows", 0)
    out = []
    full = lambda: take and len(out) > take  # noqa: E731
    prev = -1
    for n, cells in expand_rows(sheet["rows"]):
        # rows that are not in the file are empty rows
        if ne:
            for _ in range(max(prev + 1, kw.get("skip_rows", 0)), n):
                if full():
                    break
                out.append(OMITTED)
        prev = n
        if full():
            break
        if n < kw.get("skip_rows", 0):
            continue
        d = {}
        for c in cells:
            if c["c"] in skip_cols:
                continue
            v = cell_value(c, spec, isnull)
            if v is not None:
                d.setdefault(c["c"], v)
        if not d and not ne:
            continue
        out.append(d)
        if full():
            break
    while out and not out[-1]:
        out.pop()
    return out


class Exp:
    """An expectation for one read; `alts` are alternatives (usually one)."""

    def __init__(self, alts):
        self.alts = alts

    def check(self, table):
        msgs = []
        for a in self.alts:
            m = a.check(table)
            if m is None:
                return None
            msgs.append(m)
        return msgs[0] if len(msgs) == 1 else " / ".join(msgs)


class Alt:
    def __init__(self, names, cols, nrows, prec=6):
        self.names, self.cols, self.nrows, self.prec = names, cols, nrows, prec

    def check(self, table):
        got = list(table.column_names)
        kind, val = self.names
        if kind == "list":
            if got != val:
                return f"column names {got!r}, expected {val!r}"
        elif kind == "placeholders":
            if len(got) != val:
                return f"{len(got)} columns instead of {val}"
            if len(set(got)) != len(got) or any(not re.search(rf"(?<!\d){i}\Z", n) for i, n in enumerate(got)):
                return f"placeholder names {got!r}"
        else:
            m = names_ok(got, val, self.prec)
            if m:
                return m
        if table.num_rows != self.nrows:
            return f"{table.num_rows} rows instead of {self.nrows}"
        for i, opts in enumerate(self.cols):
            if opts is None:
                continue
            m = check_column(table.column(i), opts)
            if m:
                return f"column {i} ({got[i]!r}): {m}"
        return None


def check_column(col, opts):
    ty = str(col.type)
    vals = pylist(col)
    why = None
    for t, exp in opts:
        if t != ty:
            continue
        for r, (g, e) in enumerate(zip(vals, exp)):
            if not value_ok(g, e):
                why = why or f"row {r}: got {g!r}, expected {e!r}"
                break
        else:
            return None
    return why or f"type {ty} instead of {' or '.join(t for t, _ in opts)}; values {vals[:20]!r}"


def pick_sheet(spec, sheet):
    sheets = [s for s in spec["sheets"] if s.get("kind", "worksheet") == "worksheet"]
    if isinstance(sheet, str):
        for s in sheets:
            if s["name"] == sheet:
                return s
        raise Reject("no such sheet")
    if not 0 <= sheet < len(sheets):
        raise Reject("no such sheet")
    return sheets[sheet]


def op_fold(strategy, masks):
    if isinstance(strategy, str):
        f = any if strategy == "or" else all
        return [f(m) for m in zip(*masks)]
    if len(strategy) != len(masks) - 1:
        raise Reject("operator count")
    acc = list(masks[0])
    for op, m in zip(strategy, masks[1:]):
        acc = [(a and b) if op == "and" else (a or b) for a, b in zip(acc, m)]
    return acc


def expected(spec, kw, sheet=0) -> Exp:
    sh = pick_sheet(spec, sheet)
    out = kept_rows(spec, sh, kw)
    cols = sorted({c for d in out for c in d})
    if not cols:
        raise Unspecified
    hdr = kw.get("header", 0)
    starts = [0]
    lk = kw.get("lookup_head")
    size = kw.get("lookup_size", 30)
    if lk is not None:
        if isinstance(lk, int):
            if lk not in cols:
                raise Reject("lookup column does not exist")
            starts = [i for i, d in enumerate(out[:size]) if lk in d][:1]
        else:
            rx = re.compile(lk)
            firsts = {}
            if kw.get("conflict_resolve", "no") != "no":
                # texts that are made numbers or dates are not the texts they were
                for c in cols:
                    vs = [d[c] for d in out[:size] if c in d]
                    if len({v[0] for v in vs}) > 1 and all(re.search(r"\d", v[1]) for v in vs if v[0] == "S"):
                        raise Unspecified
            for i, d in enumerate(out[:size]):
                for c, v in d.items():
                    if v[0] == "S" and rx.search(v[1]):
                        firsts.setdefault(c, i)
            starts = sorted(set(firsts.values()))  # the first match of some column
        if not starts:
            raise Reject("no header row in the window")
    alts, rejects = [], 0
    for first in starts:
        try:
            alts.append(_from(spec, kw, out, cols, hdr, first))
        except Reject:
            rejects += 1
    if not alts:
        raise Reject("every candidate is rejected")
    if rejects:
        raise Unspecified
    return Exp(alts)


def _from(spec, kw, out, cols, hdr, first):
    height = 0
    if isinstance(hdr, list):
        if len(hdr) != len(cols):
            raise Reject("header length")
        names = ("list", hdr)
        plain = hdr
    elif int(hdr) == 0:
        names = ("placeholders", len(cols))
        plain = None
    else:
        height = int(hdr)
        grid = [[out[first + r].get(c) if first + r < len(out) else None for r in range(height)] for c in cols]
        bases = []
        prev = None
        vague = False
        for col in grid:
            # under conflict_resolve, texts, numbers and dates above each other in a header may be made one kind
            ks = {v[0] for v in col if v is not None}
            vague = vague or (kw.get("conflict_resolve", "no") != "no" and len(ks) > 1)
            if vague:
                bases.append(None)
                continue
            if height > 1:
                top = next((i for i, v in enumerate(col) if v is not None), None)
                if top is None:
                    bases.append([])
                    continue
                if prev is not None:
                    col = prev[:top] + col[top:]
                prev = col
            bases.append([v for v in col if v is not None])
        names = ("sheet", bases)
        plain = None
    body = out[first + height + kw.get("skip_rows_after_header", 0):]
    rf = kw.get("row_filters")
    if rf:
        pos = filter_positions(rf, names, plain, len(cols))
        if pos:
            masks = [[cols[i] in d for d in body] for i in pos]
            if len(masks) > 1:
                keep = op_fold(kw.get("row_filters_strategy", "or"), masks)
            else:
                keep = masks[0]
            body = [d for d, k in zip(body, keep) if k]
            if not body:
                raise Reject("filter selects nothing")
    exps = []
    for c in cols:
        try:
            exps.append(column_exp([d.get(c) for d in body], kw, spec))
        except Unspecified:
            exps.append(None)
    return Alt(names, exps, len(body), kw.get("float_precision", 6))


def filter_positions(rf, names, plain, n):
    if isinstance(rf, str):
        rf = [rf]
    if all(isinstance(x, int) for x in rf):
        return [i for i in range(n) if i in rf]
    if plain is None:
        if names[0] == "placeholders":
            raise Unspecified
        plain = []
        for parts in names[1]:
            ex = None if parts is None else base_exact(parts)
            if ex is None:
                raise Unspecified
            plain.append(ex)
        # duplicates are renamed; patterns in use end in a letter or '$', see gen
        done = []
        for b in plain:
            nme, i = b, 1
            while nme in done:
                nme = f"{b}.{i}"
                i += 1
            done.append(nme)
        plain = done
    return [i for i, nme in enumerate(plain) if any(re.match(p, nme) for p in rf)]
