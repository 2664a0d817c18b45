"""The helpers that pass cells between bytes, NumPy and Arrow."""
import struct

import numpy as np
import pyarrow as pa
import pyarrow.compute as pc

from .common import *

RULE = "Drawn values through every conversion between packed bytes, NumPy and Arrow (also of slices, strides and parts of bitmasks) and through every wrapped Arrow function; oracle: struct, Python and pyarrow.compute."

KINDS = {"u1": ("B", np.uint8, pa.uint8()), "u4": ("I", np.uint32, pa.uint32()), "i8": ("q", np.int64, pa.int64()), "f8": ("d", np.float64, pa.float64()), "ms": ("q", np.int64, pa.timestamp("ms"))}
RANGE = {"u1": st.integers(0, 255), "u4": st.integers(0, 2**32 - 1), "i8": st.integers(-(2**63), 2**63 - 1), "ms": st.integers(-(2**40), 2**45),
         "f8": st.one_of(st.floats(allow_nan=False), st.integers(-1000, 1000).map(float))}  # fmt: skip


@st.composite
def buffers(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    v = draw(st.lists(RANGE[kind], max_size=40))
    cut = draw(st.tuples(st.integers(0, 5), st.integers(0, 40), st.sampled_from([1, 1, 1, 2, 3, -1, -2])))
    return {"kind": kind, "v": [x.hex() if isinstance(x, float) else x for x in v], "cut": list(cut)}


def same(got, want, what):
    got = [struct.pack("<d", x) if isinstance(x, float) else x for x in got]
    want = [struct.pack("<d", x) if isinstance(x, float) else x for x in want]
    if got != want:
        raise Violation(f"{what}: {got[:12]!r} instead of {want[:12]!r}")


def check_buffers(case):
    from rxls.chunk import casts as k

    code, nt, at = KINDS[case["kind"]]
    v = [float.fromhex(x) if isinstance(x, str) else x for x in case["v"]]
    data = [struct.pack("<" + code, x) for x in v]
    copies = list(data)

    def plain(a):
        if a.type != at:
            raise Violation(f"type {a.type} instead of {at}")
        a.validate(full=True)
        if a.null_count:
            raise Violation("nulls out of nowhere")
        return (a.view(pa.int64()) if case["kind"] == "ms" else a).to_pylist()

    arr = k._unsafe_data_to_array(data, nt)
    if arr.dtype != nt or len(arr) != len(v):
        raise Violation(f"{len(v)} values became {len(arr)} of {arr.dtype}")
    same(arr.tolist(), v, "bytes to array")
    same(plain(k._unsafe_data_to_arrow(data, at)), v, "bytes to arrow")
    same(plain(k._unsafe_arrow(arr, at)), v, "array to arrow")
    # the source goes, the values stay
    kept = [k._unsafe_arrow(np.array(arr), at), k._unsafe_arrow(np.array(arr)[: len(v) // 2], at)]
    noise = [np.full(len(v), 123, nt) for _ in range(3)]
    same(plain(kept[0]), v, "array to arrow, the array gone")
    same(plain(kept[1]), v[: len(v) // 2], "array to arrow, the array gone")
    del noise
    a, b, s = case["cut"]
    cut = slice(a, a + b, s) if s > 0 else slice(None, None, s)
    same(plain(k._unsafe_arrow(arr[cut], at)), v[cut], f"array[{cut}] to arrow")
    back = k._unsafe_array(pa.array(v, pa.int64()).view(at) if case["kind"] == "ms" else pa.array(v, at), nt)
    same(back[: len(v)].tolist(), v, "arrow to array")
    if case["kind"] != "ms":
        txt = [repr(x) for x in v]
        for form in (txt, [x.encode() for x in txt] if case["kind"] == "f8" else txt):
            got = k._unsafe_strings_to_array(form, nt, len(form))
            same(got.tolist(), v, "texts to array")
        same(k._unsafe_strings_to_array(iter(txt), nt).tolist(), v, "stream of texts to array")
    if data != copies:
        raise Violation("the input was changed")
    return case["kind"], len(v) > 1


@st.composite
def masks(draw):
    m = draw(st.lists(st.booleans(), max_size=70))
    if draw(st.integers(0, 3)) == 0:
        # long masks, cut far from the start
        m = (m * draw(st.sampled_from([4, 10, 40])))[:1100]
    a = draw(st.integers(0, len(m)))
    return {"m": m, "z": draw(st.integers(0, 3)), "a": a, "n": draw(st.integers(0, len(m) - a))}


def check_masks(case):
    from rxls.chunk import arrow as f
    from rxls.chunk import casts as k

    m, a, n = case["m"], case["a"], case["n"]
    whole = pa.array(m, pa.bool_())
    for part, want in ((whole, m), (whole.slice(a, n), m[a : a + n]), (whole[a:], m[a:])):
        got = k._unsafe_bool_arrow_to_numpy(part)
        if got.dtype != np.bool_ or got.tolist() != want:
            raise Violation(f"mask {want!r} became {got.tolist()!r}")
        if f.indices_nonzero(part).to_pylist() != [i for i, x in enumerate(want) if x]:
            raise Violation(f"indices of {want!r}: {f.indices_nonzero(part).to_pylist()!r}")
        if f.invert(part).to_pylist() != [not x for x in want]:
            raise Violation(f"inverse of {want!r}")
        other = pa.array([i % 3 == 0 for i in range(len(want))], pa.bool_())
        if f.or_(part, other).to_pylist() != [x or i % 3 == 0 for i, x in enumerate(want)]:
            raise Violation(f"or of {want!r}")
        if f.and_(part, other).to_pylist() != [x and i % 3 == 0 for i, x in enumerate(want)]:
            raise Violation(f"and of {want!r}")
    # missing values: whatever PyArrow's own functions make of them
    x = pa.array([None if i % 3 == case["z"] else v for i, v in enumerate(m)], pa.bool_())
    y = pa.array([None if i % 4 == 1 else i % 2 == 0 for i in range(len(m))], pa.bool_())
    for what, got, want in [
        ("or", lambda: f.or_(x, y), lambda: pc.or_(x, y)), ("and", lambda: f.and_(x, y), lambda: pc.and_(x, y)), ("invert", lambda: f.invert(x), lambda: pc.invert(x)),
        ("or scalar", lambda: f.or_(x, pa.scalar(True)), lambda: pc.or_(x, pa.scalar(True))), ("and scalar", lambda: f.and_(x, pa.scalar(False)), lambda: pc.and_(x, pa.scalar(False))),
        ("nonzero", lambda: f.indices_nonzero(x), lambda: pc.indices_nonzero(x)),
    ]:  # fmt: skip
        g, w = outcome(got), outcome(want)
        if g != w:
            raise Violation(f"{what} with missing values: {g!r} instead of {w!r}")
    return "masks", n > 8 or len(m) > 8


WORDS = st.one_of(st.sampled_from(["", "a", "A", "ab", "Ab", "ß", "Straße", "1.5", "ÄB", "a.b", "x\ny"]), gen.texts)


@st.composite
def calls(draw):
    return {
        "txt": draw(st.lists(st.one_of(WORDS, st.none()), max_size=8)), "rx": draw(st.sampled_from(["a", "^A", "b$", "a|ß", ".", "^$", "a.b", r"a\.b", "[0-9]+"])),
        "ic": draw(st.sampled_from([None, False, True])), "idx": draw(st.lists(st.integers(0, 9), max_size=6)),
        "num": draw(st.lists(st.integers(-400, 400).map(lambda x: x / 4), max_size=6)),
        "day": draw(st.lists(st.one_of(st.dates().map(str), st.sampled_from(["", "2020-13-01", "x", "12:30"])), max_size=5)),
    }  # fmt: skip


def outcome(f):
    try:
        return f().to_pylist()
    except Exception as e:
        return "raises " + type(e).__name__


def check_calls(case):
    """The wrapped functions do what the functions of PyArrow do."""
    from rxls.chunk import arrow as f

    t = pa.array(case["txt"], pa.large_string())
    kw = {} if case["ic"] is None else {"ignore_case": case["ic"]}
    pairs = [
        ("match", lambda: f.match(t, case["rx"], **kw), lambda: pc.match_substring_regex(t, case["rx"], **kw)),
        ("take", lambda: f.take(t, pa.array(case["idx"], pa.uint32())), lambda: t.take(pa.array(case["idx"], pa.uint32()))),
        ("cast to int", lambda: f.unsafe_cast(pa.array(case["num"], pa.float64()), pa.int64()), lambda: pc.cast(pa.array(case["num"], pa.float64()), pa.int64(), safe=False)),
        ("cast to text", lambda: f.unsafe_cast(pa.array(case["num"], pa.float64()), pa.large_string()), lambda: pc.cast(pa.array(case["num"], pa.float64()), pa.large_string())),
        ("cast to number", lambda: f.unsafe_cast(t, pa.float64()), lambda: pc.cast(t, pa.float64())),
        ("strptime", lambda: f.strptime(pa.array(case["day"], pa.large_string()), "%Y-%m-%d", "ms", True), lambda: pc.strptime(pa.array(case["day"], pa.large_string()), "%Y-%m-%d", "ms", True)),
    ]  # fmt: skip
    for what, got, want in pairs:
        g, w = outcome(got), outcome(want)
        if str(g) != str(w):
            raise Violation(f"{what}: {g!r} instead of {w!r}")
    return "functions", bool(case["txt"])


MS = st.one_of(st.integers(-(2**45), 2**48), st.integers(-3, 3).flatmap(lambda d: st.sampled_from([-1, 0, 1, 3_600_000]).map(lambda x: d * 86_400_000 + x)), st.integers(-40000, 40000).map(lambda d: d * 86_400_000))


@st.composite
def facts(draw):
    p = draw(st.integers(0, 10))
    base = draw(st.lists(st.integers(-(10**4), 10**4), min_size=1, max_size=6))
    q = draw(st.integers(0, 12))
    frac = [draw(st.sampled_from([0, 0, 1, 3, -2, 7])) for _ in base]
    return {"ms": draw(st.lists(MS, max_size=6)), "p": p, "q": q, "base": base, "frac": frac}


def check_facts(case):
    from rxls.chunk import casts as k

    ms = case["ms"]
    a = np.array(ms, dtype=np.int64)
    if bool(k.dt_has_t(a)) != any(x % 86_400_000 for x in ms):
        raise Violation(f"times of {ms!r}: {k.dt_has_t(a)}")
    # the first day of 1970 stands for bare times
    if bool(k.dt_has_d(a)) != any(x >= 86_400_000 or x < 0 for x in ms):
        raise Violation(f"days of {ms!r}: {k.dt_has_d(a)}")
    # x + f / 10**q: a fraction that rounding to p digits leaves (q <= p) or clearly removes (q > p)
    p, q = case["p"], case["q"]
    v = [b + f / 10**q for b, f in zip(case["base"], case["frac"])]

    def integral(b, f):
        if not f or q == 0:
            return True
        if q <= p:
            return f % 10**q == 0
        if q == p + 1 and abs(f) >= 4:
            return None
        # rounding gives the integer; its truncation is the same only above it in magnitude
        x = b + f / 10**q
        return int(x) == b

    want = [integral(b, f) for b, f in zip(case["base"], case["frac"])]
    if None not in want:
        got = bool(k.f8_is_i8(np.array(v), p))
        if got != all(want):
            raise Violation(f"integers to {p} digits: {v!r}: {got}")
    return "facts", len(ms) > 0


def guarded(check):
    """A helper that no longer exists under its name has nothing to be judged by."""

    def run(case):
        try:
            return check(case)
        except (AttributeError, ImportError) as e:
            if "module 'rxls" in str(e) or "from 'rxls" in str(e):
                return "absent", False
            raise

    return run


check_buffers, check_masks, check_calls, check_facts = map(guarded, (check_buffers, check_masks, check_calls, check_facts))

SUBS = [
    Sub("buffers", check_buffers, buffers, 2500, rule="non-trivial: more than one value"),
    Sub("masks", check_masks, masks, 1500, rule="non-trivial: masks longer than a byte"),
    Sub("functions", check_calls, calls, 1500, rule="non-trivial: texts"),
    Sub("facts", check_facts, facts, 2000, rule="non-trivial: timestamps"),
]
