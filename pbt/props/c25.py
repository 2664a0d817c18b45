"""One column: histories of additions and requests."""
import struct

from .common import *

RULE = "Histories of cells added to one column (runs, gaps, repeated rows, every storage kind of both formats) mixed with requests for slices and masks, typed or as text, under drawn conflict options; after every operation the answer is compared with a plain list of cells."

SST = ["alpha", "7", "2021-02-03", None, "x", "1.5", "ß😀", "03.02.2021 10:11"]
DATES = {"2021-02-03": 1612310400000, "03.02.2021 10:11": 1612347060000, "1969-12-31": -86400000, "10:30": 37800000}
TEXTS = ["alpha", "b", "7", "1.5", "-2", "2021-02-03", "1969-12-31", "10:30", "ß😀", "n/a"]

num_v = st.one_of(st.integers(-50, 50).map(float), st.sampled_from([0.5, 1.25, -0.001, 1e15, 123456.789, 0.0, -0.0, 2.0**40, 1e300]))
ser_v = st.one_of(st.integers(1, 60000).map(float), st.sampled_from([0.5, 0.25, 44197.75, 1.0, 59.0, 61.0, 25569.0, 44197.123]))
KINDS = {
    "n": num_v, "t": ser_v, "s": st.sampled_from(TEXTS), "i": st.sampled_from([i for i, s in enumerate(SST) if s is not None]), "b": st.booleans(),
    "rk": st.one_of(st.integers(-50, 50).map(gen.rk_of_int), gen.rks), "rt": st.integers(1, 60000).map(gen.rk_of_int),
}  # fmt: skip
FAMILIES = {"any": "n n t s i b rk rt".split(), "num": ["n", "n", "b", "rk"], "date": ["t", "t", "rt"], "text": ["s", "i", "i"], "date text": ["t", "s", "rt"], "num text": ["n", "s", "rk", "i"]}


def cell_v(kinds):
    return st.one_of(*[st.tuples(st.just(k), KINDS[k]).map(list) for k in kinds])


@st.composite
def cell_runs(draw, of):
    """A run of additions: the same kind several times, or one cell, with a gap before it."""
    c = draw(of)
    gap = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 7]))
    if draw(st.integers(0, 60)) == 0:
        gap = draw(st.sampled_from([255, 256, 1000, 1024, 4096, 65535, 65536, 70000]))
    return ["add", gap, c, draw(st.sampled_from([1, 1, 1, 2, 3, 9]))]


req_tail = st.tuples(st.just("tail"), st.integers(-3, 12), st.integers(0, 14), st.sampled_from(["arrow", "utf8"])).map(list)
req = st.one_of(
    st.tuples(st.just("get"), st.integers(0, 14), st.integers(0, 14), st.sampled_from(["arrow", "arrow", "utf8"])),
    st.tuples(st.just("get"), st.just(0), st.just(0), st.sampled_from(["arrow", "utf8"])),
    st.tuples(st.just("mask"), st.integers(0, 9), st.lists(st.booleans(), min_size=1, max_size=20), st.sampled_from(["arrow", "arrow", "utf8"])),
    st.tuples(st.just("mask"), st.integers(0, 5), st.lists(st.booleans(), min_size=20, max_size=40), st.just("arrow")),
    st.tuples(st.just("get"), st.sampled_from([100, 300, 2000, 70000]), st.integers(0, 5), st.sampled_from(["arrow", "utf8"])),
    st.tuples(st.just("all"), st.just(0), st.just(0), st.sampled_from(["arrow", "utf8"])),
    # counted from the end of the column
    req_tail,
).map(list)


@st.composite
def histories(draw):
    of = cell_v(FAMILIES[draw(st.sampled_from(["any", "any", *FAMILIES]))])
    ops = [draw(cell_runs(of))] if draw(st.integers(0, 9)) else []
    if draw(st.integers(0, 9)) == 0:
        # far from the start, asked for near the end
        ops = [["add", draw(st.sampled_from([120, 255, 256, 1000, 1024, 4096, 20000])), draw(of), draw(st.integers(1, 9))]]
        ops += draw(st.lists(st.one_of(cell_runs(of), req_tail, req_tail), min_size=2, max_size=8))
        return {"binary": draw(st.booleans()), "ops": ops, "mode": draw(st.sampled_from(["no", "no", "temporal", "numeric", "all"])), "prec": 6}
    if draw(st.integers(0, 19)) == 0:
        # many short chunks
        kinds = [[k, draw(KINDS[k])] for k in draw(st.sampled_from(["nts", "ntb", "tns", "ni", "ts", "nsi", "tsi", "ntsib", "nt"]))]
        ops += [["add", 0, c, 1] for c in kinds * draw(st.integers(8, 40))]
    if draw(st.integers(0, 19)) == 0:
        # whole numbers in many chunks, but for one of them
        whole = [["n", float(draw(st.integers(-50, 50)))], ["rk", gen.rk_of_int(draw(st.integers(-50, 50)))], ["b", True]]
        n = draw(st.integers(10, 60))
        seq = [["add", draw(st.sampled_from([0, 0, 0, 1])), whole[i % draw(st.integers(2, 3))], 1] for i in range(n)]
        if draw(st.integers(0, 3)):
            seq[draw(st.integers(0, n - 1))] = ["add", 0, ["n", draw(st.sampled_from([0.5, 1.25, 1e300, -2.01]))], 1]
        ops += seq
    ops += draw(st.lists(st.one_of(cell_runs(of), cell_runs(of), req, req, st.tuples(st.just("dup"), st.integers(0, 5), of).map(list)), min_size=2, max_size=14))
    return {
        "binary": draw(st.booleans()), "ops": ops, "mode": draw(st.sampled_from(["no", "no", "temporal", "numeric", "all"])), "prec": draw(st.sampled_from([6, 6, 0, 2, 15])),
    }  # fmt: skip


def encode(c, binary):
    """(xdt, val, model cell) of a drawn cell."""
    from rxls import constants as k

    kind, v = c
    if kind == "i":
        return k.TYPE_STRING | k.REPR_SHARED, struct.pack("<I", v) if binary else str(v).encode(), ("S", SST[v])
    if kind == "s":
        return k.TYPE_STRING | k.REPR_PREPARED, v if binary else v.encode(), ("S", v)
    if kind == "b":
        if binary:
            return k.TYPE_NUMERIC | k.REPR_BOOLEAN, bytes([v]), ("N", float(v))
        return k.TYPE_NUMERIC, str(int(v)).encode(), ("N", float(v))
    temporal = kind in ("t", "rt")
    f = wb.rk_value(v) if kind in ("rk", "rt") else v
    model = ("T" if temporal else "N", f)
    if not binary:
        return k.TYPE_NUMERIC | (k.REPR_TEMPORAL if temporal else 0), wb.num_text({"v": f}).encode(), model
    if kind in ("rk", "rt"):
        return k.TYPE_NUMERIC | k.REPR_RKNUMBER | (k.REPR_TEMPORAL if temporal else 0), struct.pack("<I", v), model
    return k.TYPE_NUMERIC | (k.REPR_TEMPORAL if temporal else k.REPR_PREPARED), struct.pack("<d", f), model


def as_text_ok(got, e, ty):
    if e is None or got is None:
        return e is None and got is None
    how, v = e
    if how == "text":
        return o.text_ok(got, v)
    if how == "int":
        return got == str(int(v)) or (got == "-0" and not v)
    if how == "f8":
        try:
            return float(got) == v
        except ValueError:
            return False
    ms = o.iso_ms(got)
    return ms is not None and (o.ms_ok(ms, v) if how == "serial" else ms == v)


def check(case):
    import pyarrow as pa
    from rxls.cell import cell
    from rxls.series import xl_series

    binary = case["binary"]
    kw = {"conflict_resolve": case["mode"], "float_precision": case["prec"]}
    spec = {"dt": DATES}
    s = xl_series(pa.array(SST, pa.large_string()), binary, conflict_resolve=case["mode"], float_precision=case["prec"])
    model: list = []
    asked = 0
    log = []

    def compare(got, want, op):
        nonlocal asked
        if len(got) != len(want):
            raise Violation(f"{op}: {len(got)} values instead of {len(want)} after {log}")
        try:
            got.validate(full=True)
        except Exception as e:
            raise Violation(f"{op}: {rc.describe(e)}") from None
        if not want:
            return
        if not model:
            if got.null_count != len(want):
                raise Violation(f"{op}: values in a column without cells: {got.to_pylist()}")
            return
        try:
            alts = o.column_exp(want, kw, spec)
        except o.Unspecified:
            return
        asked += any(x is not None for x in want)
        if op[3] == "arrow":
            m = o.check_column(got, alts)
        else:
            m = None
            vals = got.to_pylist()
            if str(got.type) != "large_string":
                m = f"type {got.type}"
            elif not any(all(as_text_ok(g, e, ty) for g, e in zip(vals, exp)) for ty, exp in alts):
                m = f"text {vals!r} does not show {alts[0][1]!r}"
        if m:
            raise Violation(f"{op}: {m}; after {log}")

    def request(op):
        what, off, arg, how = op
        if what == "tail":
            what, off = "get", max(0, len(model) - off)
        if not model and what == "mask":
            return  # a column exists from its first cell on
        fn = s.to_arrow if how == "arrow" else s.to_utf8
        if what == "all":
            compare(fn(), model, op)
        elif what == "get":
            want = model[off : off + arg] if arg else model[off:]
            if arg:
                want = want + [None] * (arg - len(want))
            compare(fn(off, arg), want, op)
        else:
            rest = model[off : off + len(arg)]
            rest = rest + [None] * (len(arg) - len(rest))
            want = [x for x, keep in zip(rest, arg) if keep]
            compare(fn(off, idx=pa.array(arg, pa.bool_())), want, op)

    for op in case["ops"]:
        if op[0] == "add":
            _, gap, c, n = op
            for j in range(n):
                cc = [c[0], c[1] + j if c[0] in ("n", "t") and j and abs(c[1]) < 1e6 else c[1]]
                xdt, val, m = encode(cc, binary)
                row = len(model) + (gap if j == 0 else 0)
                ret = s.add(cell(row, 0, xdt, val))
                model += [None] * (row - len(model)) + [m]
                if ret != len(model) - 1:
                    raise Violation(f"add returned {ret}, last row is {len(model) - 1}; after {log}")
        elif op[0] == "dup":
            if model:
                xdt, val, _m = encode(op[2], binary)
                ret = s.add(cell(max(0, len(model) - 1 - op[1]), 0, xdt, val))
                if ret != len(model) - 1:
                    raise Violation(f"add of a filled row returned {ret}, last row is {len(model) - 1}; after {log}")
        else:
            request(op)
        log.append(op)
        if len(s) != len(model):
            raise Violation(f"length {len(s)} instead of {len(model)} after {log}")
    for how in ("arrow", "utf8"):
        request(["get", 0, 0, how])
        request(["get", 1, 3, how])
    kinds = "".join(sorted({x[0] for x in model if x}))
    return f"{'xlsb' if binary else 'xlsx'}/{kinds or 'empty'}", asked >= 2


SUBS = [Sub("histories", check, histories, 6000, rule="non-trivial: at least two determined requests of a slice with values")]
