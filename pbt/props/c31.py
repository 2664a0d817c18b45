"""Chunks: selecting and converting runs of cells."""
import itertools

from . import c25
from .common import *

RULE = (
    "Runs of cells of every storage kind of both formats packed into chunks; chains of selections (index, slice with any bounds and step, mask), conversions and "
    "preparations, and take_over of chunk sequences; after each operation the result and all chunks made before are compared with plain lists."
)

bound = st.one_of(st.none(), st.integers(-14, 14))
# backward slices only in full: PyArrow clips the bounds of others in its own way
slices = st.one_of(st.tuples(st.just("slice"), bound, bound, st.sampled_from([None, None, 1, 2, 3])), st.tuples(st.just("slice"), st.none(), st.none(), st.sampled_from([-1, -2]))).map(list)
OPS = st.one_of(
    slices, slices,
    st.tuples(st.just("index"), st.integers(0, 12)).map(list),
    st.tuples(st.just("mask"), st.integers(0, 2**12 - 1)).map(list),
    st.tuples(st.just("mask"), st.integers(0, 2**12 - 1), st.integers(1, 9)).map(list),
    st.just(["prepare"]), st.just(["arrow"]), st.just(["utf8"]), st.just(["numeric"]), st.just(["temporal"]),
)  # fmt: skip
NUMTEXT = ["7", "1.5", "-2", "0", "1e3", "-0.25"]
DATETEXT = [t for t in c25.DATES if "-" in t or "." in t]


@st.composite
def runs(draw, kinds="ntsirb0RBds"):
    """[kind, values]: one chunk."""
    k = draw(st.sampled_from([*"nntsib0", "rk", "rt", "numtext", "datetext"]))
    n = draw(st.sampled_from([0, 1, 2, 3, 5, 8, 12]))
    if k == "0":
        return [k, n]
    if k == "numtext":
        return ["s", draw(st.lists(st.sampled_from(NUMTEXT), min_size=n, max_size=n))]
    if k == "datetext":
        return ["s", draw(st.lists(st.sampled_from(DATETEXT), min_size=n, max_size=n))]
    v = st.sampled_from(range(len(c25.SST))) if k == "i" else c25.KINDS[k]
    return [k, draw(st.lists(v, min_size=n, max_size=n))]


@st.composite
def chains(draw):
    return {"binary": draw(st.booleans()), "run": draw(runs()), "ops": draw(st.lists(st.tuples(st.integers(0, 5), OPS).map(list), min_size=1, max_size=8))}


@st.composite
def sequences(draw):
    rs = draw(st.lists(runs(), min_size=0, max_size=6))
    total = sum(r[1] if r[0] == "0" else len(r[1]) for r in rs)
    off = draw(st.integers(0, total + 3))
    how = draw(st.sampled_from(["length", "length", "mask"]))
    arg = draw(st.integers(0, total + 5)) if how == "length" else draw(st.lists(st.booleans(), max_size=total + 4))
    return {"binary": draw(st.booleans()), "runs": rs, "off": off, "how": how, "arg": arg, "prepared": draw(st.booleans())}


def make(run, binary):
    """(chunk, model list of (kind, value) or None)."""
    import pyarrow as pa
    from rxls.chunk import chunk

    k, vs = run
    if k == "0":
        return chunk.nulls(vs), [None] * vs
    enc = [c25.encode([k, v], binary) for v in vs]
    data, model = [e[1] for e in enc], [e[2] if e[2][1] is not None else None for e in enc]
    if k in "si":
        sh = pa.array(c25.SST, pa.large_string())
        f = chunk.xlsb_strings if binary else chunk.xlsx_strings
        return f(data, is_shared=k == "i", shareds=sh), model
    if binary:
        return chunk.xlsb_numeric(data, is_boolean=k == "b", is_temporal=k in ("t", "rt"), is_rknumber=k in ("rk", "rt")), model
    return chunk.xlsx_numeric(data, is_temporal=k in ("t", "rt")), model


def family(c):
    return "0" if c.is_null else "S" if not c.is_numeric else "T" if c.is_temporal else "N"


def value_ok(got, want):
    """want: None, (S|N|T|MS, value)."""
    if want is None or got is None:
        return want is None and got is None
    k, v = want
    if k == "S":
        return got == v
    if k == "N":
        return isinstance(got, float) and got == v
    ms = got if isinstance(got, int) else o.to_ms(got)
    return ms == v if k == "MS" else o.ms_ok(ms, v)


def ints(arr):
    import pyarrow as pa

    return arr.cast(pa.int64()).to_pylist() if str(arr.type).startswith("timestamp") else arr.to_pylist()


def verify(c, fam, model, what):
    """The chunk shows exactly the model."""
    if family(c) != fam:
        raise Violation(f"{what}: a chunk of kind {family(c)} instead of {fam}")
    if c.size != len(model) or c.is_empty != (not model):
        raise Violation(f"{what}: size {c.size}, is_empty {c.is_empty} instead of {len(model)} cells")
    a = c.arrow()
    try:
        a.validate(full=True)
    except Exception as e:
        raise Violation(f"{what}: {rc.describe(e)}") from None
    ty = {"0": "null", "S": "large_string", "N": "double", "T": "timestamp[ms]"}[fam]
    if str(a.type) != ty or len(a) != len(model):
        raise Violation(f"{what}: {len(a)} x {a.type} instead of {len(model)} x {ty}")
    got = ints(a)
    for i, (g, w) in enumerate(zip(got, model)):
        if not value_ok(g, w):
            raise Violation(f"{what}: cell {i} is {g!r} instead of {w!r}; all: {got!r} for {model!r}")


def text_num(t):
    try:
        return float(t)
    except ValueError:
        return None


def check_chain(case):
    import pyarrow as pa

    from rxls.chunk import chunk

    c0, m0 = make(case["run"], case["binary"])
    fam0 = {"0": "0", "s": "S", "i": "S", "t": "T", "rt": "T"}.get(case["run"][0], "N")
    pool = [(c0, fam0, m0)]
    done, log = 0, []
    for src, op in case["ops"]:
        c, fam, m = pool[src % len(pool)]
        log.append([src % len(pool), op])
        what = f"{case['run']!r} after {log!r}"
        new = None
        if op[0] == "slice":
            s = slice(*op[1:])
            new = c.take(s), fam, m[s]
        elif op[0] == "index":
            new = c.take(op[1]), fam, m[op[1] : op[1] + 1]
        elif op[0] == "mask":
            bits = [bool(op[1] >> i & 1) for i in range(len(m))]
            if len(bits) != len(m) or (len(bits) > 12):
                continue
            arr = pa.array(bits, pa.bool_())
            if len(op) > 2:  # a mask that is itself a slice
                arr = pa.array([True] * op[2] + bits + [False] * 3, pa.bool_())[op[2] : op[2] + len(bits)]
            new = c.take(arr), fam, list(itertools.compress(m, bits))
        elif op[0] == "prepare":
            new = c.prepare(), fam, m
        elif op[0] == "arrow":
            verify(c, fam, m, what)
        elif op[0] == "utf8":
            u = c.utf8().to_pylist()
            if str(c.utf8().type) != "large_string" or len(u) != len(m):
                raise Violation(f"{what}: {len(u)} x {c.utf8().type}")
            for g, w in zip(u, m):
                e = None if w is None else ("text", w) if w[0] == "S" else ("f8", w[1]) if w[0] == "N" else ("serial" if w[0] == "T" else "ms", w[1])
                if not c25.as_text_ok(g, e, None):
                    raise Violation(f"{what}: text {g!r} for {w!r}")
        elif op[0] == "numeric":
            if fam == "S":
                nums = [text_num(x[1]) if x else None for x in m]
                if None in nums:
                    if all(m):  # nulls among texts: not defined
                        try:
                            c.as_numeric()
                        except pa.ArrowInvalid:
                            continue
                        raise Violation(f"{what}: texts {m!r} were taken for numbers")
                    continue
                new = c.as_numeric(), "N", [("N", x) for x in nums]
            else:
                new = c.as_numeric(), fam, m
        elif op[0] == "temporal":
            if fam == "S":
                if not all(m):
                    continue
                ms = [c25.DATES.get(x[1]) for x in m]
                if None in ms:
                    try:
                        c.as_temporal()
                    except pa.ArrowInvalid:
                        continue
                    raise Violation(f"{what}: texts {m!r} were taken for dates")
                new = c.as_temporal(), "T", [("MS", x) for x in ms]
            elif fam == "N":
                if any(not 0 <= x[1] < 2958466 for x in m):
                    continue
                new = c.as_temporal(), "T", [("T", x[1]) for x in m]
            elif fam == "T":
                new = c.as_temporal(), "T", m
        if new:
            verify(*new, what)
            pool.append(new)
            done += bool(m)
        for x in pool:
            if x[0].size != len(x[2]):
                raise Violation(f"{what}: a chunk made before changed its size")
    for i, x in enumerate(pool):
        verify(*x, f"chunk {i} at the end of {log!r} from {case['run']!r}")
    return f"{'xlsb' if case['binary'] else 'xlsx'}/{case['run'][0]}", done >= 2


def check_seq(case):
    import pyarrow as pa
    from rxls.chunk import chunk

    made = [make(r, case["binary"]) for r in case["runs"]]
    fams = [{"0": "0", "s": "S", "i": "S", "t": "T", "rt": "T"}.get(r[0], "N") for r in case["runs"]]
    chunks = [c for c, _ in made]
    if case["prepared"]:
        for c in chunks:
            c.prepare()
    cells = [x for _, m in made for x in m]
    before = list(chunks)
    if case["how"] == "length":
        got = chunk.take_over(chunks, case["off"], case["arg"])
        want = cells[case["off"] :]
        if case["arg"]:
            want = want[: case["arg"]]
            want = want + [None] * (case["arg"] - len(want))
    else:
        got = chunk.take_over(chunks, case["off"], index=pa.array(case["arg"], pa.bool_()))
        rest = cells[case["off"] :]
        rest = rest + [None] * (len(case["arg"]) - len(rest))
        want = list(itertools.compress(rest, case["arg"]))
    if len(chunks) != len(before) or any(a is not b for a, b in zip(chunks, before)):
        raise Violation("take_over changed the list it was given")
    at = 0
    for i, c in enumerate(got):
        verify(c, family(c), want[at : at + c.size], f"chunk {i} of take_over({case['off']}, {case['how']}={case['arg']!r}) of {case['runs']!r}")
        at += c.size
    if at != len(want):
        raise Violation(f"take_over gave {at} cells instead of {len(want)} for {case!r}")
    for (c, m), f in zip(made, fams):
        verify(c, f, m, f"a source of take_over of {case!r}")
    return f"{case['how']}/{len(case['runs'])} chunks", len(want) >= 2 and len(case["runs"]) >= 2


SUBS = [
    Sub("chains", check_chain, chains, 6000, rule="non-trivial: at least two selections or conversions of a chunk that has cells"),
    Sub("sequences", check_seq, sequences, 5000, rule="non-trivial: two or more chunks and cells selected"),
]
