"""The deciding step of the end-to-end checks: read a generated workbook and compare with the oracle."""
from __future__ import annotations

import copy
import io

from . import oracle as o
from . import wb


class Violation(Exception):
    pass


def to_kwargs(kw):
    import pyarrow as pa

    out = {k: v if callable(v) else copy.deepcopy(v) for k, v in kw.items()}
    nv = out.get("null_values")
    if isinstance(nv, str):
        out["null_values"] = o.PREDICATES[nv]
    if "dtypes" in out:
        out["dtypes"] = decode_dtypes(out["dtypes"])
    df = out.get("datetime_formats")
    if isinstance(df, list):
        out["datetime_formats"] = tuple(df)
    # sequences are accepted as lists and as tuples
    for k in ("null_values", "row_filters_strategy", "dtypes"):
        if isinstance(out.get(k), list) and sum(map(len, map(str, out[k]))) % 2:
            out[k] = tuple(out[k])
    return out


def pa_type(name: str):
    import pyarrow as pa

    if name.startswith("ts:"):
        unit, _, tz = name[3:].partition("|")
        return pa.timestamp(unit, tz=tz or None)
    if name.startswith("time:"):
        u = name[5:]
        return pa.time32(u) if u in ("s", "ms") else pa.time64(u)
    if name.startswith("dur:"):
        return pa.duration(name[4:])
    if name.startswith("dec:"):
        p, s = name[4:].split(",")
        return pa.decimal128(int(p), int(s))
    return getattr(pa, name)()


def decode_dtypes(d):
    if isinstance(d, str):
        return pa_type(d)
    if isinstance(d, dict):
        return {k: pa_type(v) for k, v in d.items()}
    return [pa_type(x) for x in d]


def do_read(data, sheet, kw):
    from rxls.reader import read

    src = io.BytesIO(data) if isinstance(data, (bytes, bytearray)) else data
    return read(src, sheet, **to_kwargs(kw))


def describe(e: BaseException) -> str:
    return f"{type(e).__name__}: {str(e)[:200]}"


def validate(table):
    n = table.num_rows
    for name, col in zip(table.column_names, table.columns):
        if len(col) != n:
            raise Violation(f"column {name!r} has {len(col)} values in a table of {n} rows")
    try:
        table.validate(full=True)
    except Exception as e:
        raise Violation(f"table does not validate: {describe(e)}") from None


def inspect(f, *a):
    """Looks at a result; one that cannot even be looked at is malformed."""
    try:
        return f(*a)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"malformed result: {describe(e)}") from e


def check_read(case, read_fn=do_read):
    """Reads the case; returns (status, table); raises Violation."""
    spec, kw, sheet = case["spec"], case.get("kw", {}), case.get("sheet", 0)
    try:
        exp = o.expected(spec, kw, sheet)
    except o.Reject as e:
        exp = str(e)
    except o.Unspecified:
        exp = None
    data = wb.build(spec)
    try:
        table = read_fn(data, sheet, kw)
    except Exception as e:
        if isinstance(exp, o.Exp):
            raise Violation(f"read raised {describe(e)}") from None
        return ("rejected" if exp is not None else "unspecified"), None
    inspect(validate, table)
    if isinstance(exp, str):
        raise Violation(f"read returned a table of {table.num_rows} rows instead of raising ({exp})")
    if exp is None:
        return "unspecified", table
    m = inspect(exp.check, table)
    if m:
        raise Violation(m)
    return "table", table
