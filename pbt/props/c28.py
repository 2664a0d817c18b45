"""The row callback."""
from .common import *

RULE = "Drawn sheets and options, read with and without a callback that counts, notes its arguments and thread, and may be any kind of callable. Oracle: bounds on the count from the sheet, equality of the tables."


@st.composite
def cases(draw):
    if draw(st.integers(0, 2)) == 0:
        case = draw(gen.sheet_case(max_rows=30, with_dates=False, gaps=True).map(drop))
    else:
        case = draw(gen.option_case(max_rows=14))
    if draw(st.integers(0, 5)) == 0:
        rows = case["spec"]["sheets"][0]["rows"]
        if rows:
            rows[-1] = dict(rows[-1], rep=draw(st.sampled_from([2, 50, 300])))
    rows = case["spec"]["sheets"][0]["rows"]
    if rows and draw(st.integers(0, 2)) == 0:
        # rows the file leaves out, and a window around them
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(rows) - 1))
            rows[i] = dict(rows[i], gap=draw(st.sampled_from([1, 2, 5, 40])))
        for k, v in (("take_rows_non_empty", st.booleans()), ("skip_rows", st.integers(0, 9)), ("take_rows", st.integers(0, 60))):
            if draw(st.booleans()):
                case["kw"][k] = draw(v)
    case["returns"] = draw(st.sampled_from([None, True, False, 0, 1, "stop"]))
    case["form"] = draw(st.sampled_from(["function", "method", "partial", "object", "lambda"]))
    return case


class Counter:
    def __init__(self, ret):
        self.calls, self.bad, self.ret = 0, [], ret

    def hit(self, *a, **k):
        self.calls += 1
        if a or k:
            self.bad.append((a, k))
        return self.ret

    __call__ = hit


def form(c, how):
    import functools

    if how == "function":

        def f(*a, **k):
            return c.hit(*a, **k)

        return f
    if how == "method":
        return c.hit
    if how == "partial":
        return functools.partial(c.hit)
    if how == "lambda":
        return lambda *a: c.hit(*a)
    return c


def check(case):
    import time

    spec, kw, sheet = case["spec"], case["kw"], case.get("sheet", 0)
    data = wb.build(spec)

    def attempt(extra):
        try:
            return rc.do_read(data, sheet, {**kw, **extra}), None
        except Exception as e:
            return None, e

    plain, e0 = attempt({})
    c = Counter(case["returns"])
    with_cb, e1 = attempt({"row_callback": form(c, case["form"])})
    n = c.calls
    if (e0 is None) != (e1 is None):
        raise Violation(f"without a callback: {'read' if e0 is None else rc.describe(e0)}; with one: {'read' if e1 is None else rc.describe(e1)}")
    if c.bad:
        raise Violation(f"called with arguments {c.bad[0]!r}")
    elements = sum(1 for _ in wb.expand_rows(spec["sheets"][0]["rows"]))
    # rows that are not in the file are no rows to report
    kept = sum(r is not o.OMITTED for r in o.kept_rows(spec, spec["sheets"][0], kw))
    if e0 is None:
        if n < kept:
            raise Violation(f"{n} calls for {kept} rows that were read")
        same_table(plain, with_cb, "without and with a callback")
    if n > elements + 1:
        raise Violation(f"{n} calls for a sheet of {elements} rows")
    if e1 is None:
        # a second read must report the same rows
        c2 = Counter(None)
        attempt({"row_callback": form(c2, case["form"])})
        if c2.calls != n:
            raise Violation(f"{n} calls in the first read, {c2.calls} in the second")
        if case["form"] == "object":
            time.sleep(0.002)
        if c.calls != n:
            raise Violation("called after read returned")
    return f"{spec['fmt']}/{'table' if e0 is None else 'both raise'}", e0 is None and kept >= 2


SUBS = [Sub("callback", check, lambda: gen.scaled(cases()), 3000, rule="non-trivial: a table read, from at least two rows with values")]
