from __future__ import annotations

from .. import gen, oracle as o, readcheck as rc, wb  # noqa: F401
from ..readcheck import Violation  # noqa: F401
from ..runner import Sub  # noqa: F401
from hypothesis import strategies as st  # noqa: F401


def size(table):
    return table is not None and table.num_rows > 0


def read_sub(name, strategy, n, rule="", nontrivial=None, scale=True, **k):
    nt = nontrivial or (lambda case, status, table: status == "rejected" or (status == "table" and table.num_rows * table.num_columns >= 2))

    def check(case):
        status, table = rc.check_read(case)
        return f"{case['spec']['fmt']}/{status}", bool(nt(case, status, table))

    if scale and strategy is not None:
        inner = strategy
        strategy = lambda: gen.scaled(inner())  # noqa: E731
    return Sub(name, check, strategy, n, rule=rule or "non-trivial: the oracle determines the outcome, and it is a rejection or a table of at least two cells", **k)


def case_of(spec, kw=None, sheet=0):
    return {"spec": spec, "kw": kw or {}, "sheet": sheet}


def drop(case_roles):
    return case_roles[0]


def same_table(a, b, what):
    """Equality of two tables: names, types and values."""
    rc.inspect(_same_table, a, b, what)


def _same_table(a, b, what):
    if a.column_names != b.column_names:
        raise Violation(f"{what}: column names {a.column_names!r} and {b.column_names!r}")
    if a.schema.types != b.schema.types:
        raise Violation(f"{what}: column types {a.schema.types!r} and {b.schema.types!r}")
    if a.num_rows != b.num_rows:
        raise Violation(f"{what}: {a.num_rows} and {b.num_rows} rows")
    for i, n in enumerate(a.column_names):
        x, y = rc_list(a.column(i)), rc_list(b.column(i))
        for r, (p, q) in enumerate(zip(x, y)):
            if p != q and not (p != p and q != q):
                raise Violation(f"{what}: column {n!r} row {r}: {p!r} and {q!r}")


def rc_list(col):
    return o.pylist(col)
