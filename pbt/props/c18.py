"""Faults while reading."""
import io
import zlib

from .common import *

RULE = "A valid workbook and one fault: a cut or malformed sheet part, a stream error, a wrong checksum, or a caller's function raising at its k-th call. Oracle: read raises, or returns the complete table."


class Boom(Exception):
    pass


class Halt(BaseException):
    """What no `except Exception` stops."""


EXC = {"Boom": Boom, "KeyError": KeyError, "ValueError": ValueError, "StopIteration": StopIteration, "RuntimeError": RuntimeError, "IndexError": IndexError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "Halt": Halt, "EOFError": EOFError, "AssertionError": AssertionError, "OSError": OSError, "MemoryError": MemoryError, "GeneratorExit": GeneratorExit}


@st.composite
def faults(draw):
    fmt = draw(st.sampled_from(["xlsx", "xlsx", "xlsb"]))
    spec, roles = draw(gen.base_spec((fmt,), custom=False, ser=False, max_sst=4))
    if draw(st.booleans()):
        spec["ser"] = {"stored": 1}
    cs = draw(st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True).map(sorted))
    n = draw(st.integers(1, 25))
    spec["sheets"] = [{"name": "S", "rows": draw(gen.body_rows(spec, roles, cs, n, profiles=["num", "text", "date", "mixed"], fmt=fmt))}]
    if draw(st.integers(0, 9)):
        spec["sheets"][0]["rows"].append({"cells": [{"c": cs[0], "k": "n", "v": float(n), "s": 1}]})
    if draw(st.integers(0, 2)) == 0:
        # more than the reader takes at once
        for r in spec["sheets"][0]["rows"]:
            r["rep"] = draw(st.sampled_from([1, 4, 20]))
    kinds = ["cut", "cut", "garbage", "io", "callback", "nulls", "crc"]
    kind = draw(st.sampled_from(kinds))
    return {"spec": spec, "fault": kind, "at": draw(st.integers(0, 10_000)), "how": draw(st.integers(0, 3)), "exc": draw(st.sampled_from(sorted(EXC)))}


class Faulty(io.BytesIO):
    """Reads fail once they touch an offset at or beyond `limit`, once armed."""

    limit = None

    def read(self, n=-1):
        if self.limit is not None and self.tell() + (n if n and n > 0 else 0) > self.limit and self.tell() < self.stop:
            raise OSError(5, "Input/output error")
        return super().read(n)


def sheet_part(parts):
    return next(i for i, (n, _d) in enumerate(parts) if n.startswith("xl/worksheets/"))


def check(case):
    spec, kind = case["spec"], case["fault"]
    parts = wb.build_xlsx(spec) if spec["fmt"] == "xlsx" else wb.build_xlsb(spec)
    good = wb.zip_parts(parts, spec.get("ser", {}))
    try:
        want = rc.do_read(good, 0, {})
    except Exception:
        return "nothing to read", False
    i = sheet_part(parts)
    name, data = parts[i]
    src, kw, must = good, {}, False
    if kind == "cut":
        at = case["at"] * len(data) // 10_001
        parts[i] = (name, data[:at])
        src = wb.zip_parts(parts, spec.get("ser", {}))
        must = spec["fmt"] == "xlsx"
    elif kind == "garbage":
        if spec["fmt"] == "xlsb":
            return "skipped", False
        at = case["at"] * (len(data) + 1) // 10_001
        junk = [b"\x00", b"</nonsense>", b"<", b"\xff\xfe\xfd"][case["how"]]
        parts[i] = (name, data[:at] + junk + data[at:])
        src = wb.zip_parts(parts, spec.get("ser", {}))
        must = junk == b"\x00"
    elif kind == "crc":
        off, size = locate(good, name)
        if size == 0:
            return "skipped", False
        b = bytearray(good)
        p = off + case["at"] * size // 10_001
        b[p] ^= 1 << (case["how"] * 2 + 1)
        src = bytes(b)
        must = spec["fmt"] == "xlsx"
    elif kind == "io":
        off, size = locate(good, name)
        src = Faulty(good)
        src.limit = off + case["at"] * size // 10_001
        src.stop = off + size
        # the records after the last row of an XLSB sheet need not be read
        must = spec["fmt"] == "xlsx" or src.limit < off + size - 24
    elif kind in ("callback", "nulls"):
        calls = [0]
        state = {"at": None}

        def fn(*a):
            calls[0] += 1
            if calls[0] == state["at"]:
                raise EXC[case["exc"]](*((), ("from the caller",), (None,), ("", 0))[case["how"]])
            return False

        kw = {"row_callback": fn} if kind == "callback" else {"null_values": fn}
        from rxls.reader import read

        try:
            read(io.BytesIO(good), 0, **kw)
        except Exception as e:
            raise Violation(f"read with a harmless {kind} function raised {rc.describe(e)}") from None
        total = calls[0]
        if not total:
            return "never called", False
        calls[0] = 0
        state["at"] = case["at"] % total + 1
        try:
            t = read(io.BytesIO(good), 0, **kw)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (KeyboardInterrupt, SystemExit)) and case["exc"] != type(e).__name__:
                raise
            return f"{kind}/raised", True
        raise Violation(f"{kind} raised {case['exc']} at call {state['at']} of {total}, read returned {t.num_rows} rows")
    try:
        got = rc.do_read(src, 0, kw)
    except Exception:
        return f"{spec['fmt']}/{kind}/raised", True
    if must and kind != "crc":
        raise Violation(f"{kind} at {case['at']}: read returned {got.num_rows} rows (of {want.num_rows}) instead of raising")
    try:
        rc.validate(got)
        same_table(got, want, "damaged and intact file")
    except Violation as e:
        if kind == "crc" and spec["fmt"] == "xlsb":
            return "xlsb/crc/undetected", False
        raise Violation(f"{kind}: {e}") from None
    return f"{spec['fmt']}/{kind}/complete", True


def locate(data, name):
    """Offset and size of the stored bytes of a member."""
    import struct
    import zipfile

    with zipfile.ZipFile(io.BytesIO(data)) as z:
        zi = z.getinfo(name)
    nl, el = struct.unpack("<HH", data[zi.header_offset + 26 : zi.header_offset + 30])
    return zi.header_offset + 30 + nl + el, zi.compress_size


SUBS = [Sub("faults", check, faults, 4500, rule="non-trivial: the fault was raised, or could not matter and the table is complete", hang_s=60)]
