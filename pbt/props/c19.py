"""Histories of reads: nothing is left behind, nothing is shared, the schedule does not matter."""
import copy
import io
import os
import pathlib
import shutil
import sys
import tempfile
import threading
import time

from .common import *

RULE = (
    "Histories of reads over a pool of intact and damaged workbooks, given as the same stream object, a path string or a path object, with drawn options, "
    "alone or from several threads at once. After every read (while its exception is still held) the threads and open files of the process are those of before; "
    "streams stay open, inputs unchanged, and every table is what the reference reader says."
)

BREAKS = ["cut sheet", "garbage sheet", "bad index", "no sheet part", "bad zip", "cut zip", "bad styles", "bad sst", "bad workbook", "bad rels", "cell text", "wide index"]


@st.composite
def pools(draw, broken=True, n=(1, 3)):
    pool = []
    for _ in range(draw(st.integers(*n))):
        if draw(st.booleans()):
            case = draw(gen.sheet_case(max_rows=8, max_sst=4, custom=False).map(drop))
        else:
            case = draw(gen.option_case(max_rows=6, ser=False, min_rows=1, max_pre=1))
            if draw(st.integers(0, 3)) == 0:
                case["kw"]["dtypes"] = draw(st.sampled_from([{"Unnamed. 0": "large_string", "Unnamed. 1": "large_string", "id": "string", "a": "large_string"}, {"col0": "large_string"}, "large_string", ["large_string"] * 2]))
        if case["spec"]["fmt"] == "xlsb" and draw(st.integers(0, 2)) == 0:
            case["spec"]["fmt"] = "xlsx"  # the format that reads in a second thread
            for r in case["spec"]["sheets"][0]["rows"]:
                for c in r["cells"]:
                    c.pop("rk", None)
        if broken and draw(st.integers(0, 2)) == 0:
            case["break"] = draw(st.sampled_from(BREAKS))
            case["at"] = draw(st.integers(0, 99))
        pool.append(case)
    return pool


OP = st.fixed_dictionaries({
    "w": st.integers(0, 2),
    "via": st.sampled_from(["stream", "stream", "str", "Path", "new"]),
    "how": st.sampled_from(["plain", "plain", "plain", "no sheet", "callback raises", "nulls raise", "long header"]),
    "at": st.integers(1, 12),
})  # fmt: skip


# the file and the stream get other contents of the same size and date
REWRITE = st.fixed_dictionaries({"w": st.integers(0, 2), "rewrite": st.integers(1, 3)})


def turn(s, k):
    return "".join(chr((ord(c) - 97 + k) % 26 + 97) if "a" <= c <= "z" and c not in "xyz" else c for c in s)


def turned(case, k):
    """The same layout with other texts and numbers."""
    case = copy.deepcopy(case)
    spec = case["spec"]
    spec["sst"] = [turn(i, k) if isinstance(i, str) else {**i, "runs": [turn(r, k) for r in i["runs"]]} for i in spec["sst"]]
    for sh in spec["sheets"]:
        for r in sh["rows"]:
            for c in r["cells"]:
                if c["k"] in "ti" and c["v"] not in spec.get("dt", {}):
                    c["v"] = turn(c["v"], k)
                    if "runs" in c:
                        c["runs"] = [turn(x, k) for x in c["runs"]]
                elif c["k"] == "n" and c["v"] in (1.0, 2.0, 3.0, 4.0, 5.0) and "rk" not in c and "txt" not in c:
                    c["v"] += 1.0
    # what a number format shows
    swap = {"1": "14", "2": "22", "14": "1"}
    if k == 3 and all(0 <= c["v"] < 2_900_000 for sh in spec["sheets"] for r in sh["rows"] for c in r["cells"] if c["k"] == "n"):
        spec["xfs"] = [int(swap.get(str(f), f)) for f in spec["xfs"]]
    return case


@st.composite
def histories(draw):
    ops = draw(st.lists(st.one_of(OP, OP, st.lists(OP, min_size=2, max_size=4), REWRITE), min_size=2, max_size=7))
    return {"pool": draw(pools()), "ops": ops}


@st.composite
def rewritings(draw):
    """Read, written anew, and read again in the same way."""
    case = draw(gen.sheet_case(max_rows=6, max_sst=4, custom=False, fmts=("xlsx", "xlsx", "xlsb")).map(drop))
    if draw(st.booleans()):
        case["spec"]["sheets"][0]["rows"].append({"cells": [{"c": 0, "k": "s", "v": 0}, {"c": 1, "k": "n", "v": 2.0, "s": 1}]})
    op = {"w": 0, "via": draw(st.sampled_from(["str", "Path", "stream"])), "how": "plain", "at": 1}
    ops = [op]
    for _ in range(draw(st.integers(1, 3))):
        ops += [{"w": 0, "rewrite": draw(st.integers(1, 3))}, op]
    return {"pool": [case], "ops": ops}


@st.composite
def races(draw):
    return {"pool": draw(pools(broken=False, n=(2, 3))), "ops": [draw(st.lists(OP, min_size=3, max_size=8))], "pause": draw(st.integers(0, 6))}


def damage(case):
    spec = case["spec"]
    b = case.get("break")
    parts = wb.build_xlsx(spec) if spec["fmt"] == "xlsx" else wb.build_xlsb(spec)

    def edit(pre, f):
        for i, (n, d) in enumerate(parts):
            if n.startswith(pre):
                parts[i] = (n, f(d))
                return

    at = case.get("at", 0)
    if b == "cut sheet":
        edit("xl/worksheets/", lambda d: d[: len(d) * at // 100])
    elif b == "garbage sheet":
        edit("xl/worksheets/", lambda d: d[: len(d) * at // 100] + b"\x00\xff<<" + d[len(d) * at // 100 :])
    elif b == "bad index":
        edit("xl/worksheets/", lambda d: d.replace(b't="s"><v>', b't="s"><v>x', 1) if spec["fmt"] == "xlsx" else d)
    elif b == "wide index":
        edit("xl/worksheets/", lambda d: d.replace(b't="s"><v>', b't="s"><v>99', 1) if spec["fmt"] == "xlsx" else d)
    elif b == "cell text":
        edit("xl/worksheets/", lambda d: d.replace(b"<v>", b"<v>abc", 1) if spec["fmt"] == "xlsx" else d)
    elif b == "no sheet part":
        parts[:] = [p for p in parts if not p[0].startswith("xl/worksheets/")]
    elif b in ("bad styles", "bad sst", "bad workbook", "bad rels"):
        edit({"bad styles": "xl/styles", "bad sst": "xl/sharedStrings", "bad workbook": "xl/workbook.", "bad rels": "xl/_rels/"}[b], lambda d: d[: len(d) * at // 100])
    data = wb.zip_parts(parts, spec.get("ser", {}))
    if b == "bad zip":
        data = b"PK\x03\x04" + bytes(range(100)) * 3
    elif b == "cut zip":
        data = data[: len(data) * at // 100]
    return data


class Caller(Exception):
    pass


class World:
    def __init__(self, case, tmp):
        self.items = []
        for i, c in enumerate(case["pool"]):
            it = {"path": os.path.join(tmp, f"w{i}." + c["spec"]["fmt"]), "stream": io.BytesIO(), "kw": rc.to_kwargs(c.get("kw", {}))}
            self.fill(it, c)
            self.items.append(it)

    def fill(self, it, c):
        data = damage(c)
        with open(it["path"], "wb") as f:
            f.write(data)
        os.utime(it["path"], (1_600_000_000, 1_600_000_000))
        it["stream"].seek(0)
        it["stream"].truncate()
        it["stream"].write(data)
        try:
            exp = o.expected(c["spec"], c.get("kw", {}), c.get("sheet", 0))
        except o.Reject as e:
            exp = str(e)
        except o.Unspecified:
            exp = None
        if c.get("break") or "dtypes" in c.get("kw", {}):
            exp = None
        it.update({"case": c, "data": data, "exp": exp, "first": None})

    def rewrite(self, op):
        it = self.items[op["w"] % len(self.items)]
        self.fill(it, turned(it["case"], op["rewrite"]))

    def op(self, op, shared_stream=True, pause=0):
        from rxls.reader import read

        it = self.items[op["w"] % len(self.items)]
        via = op["via"]
        if via == "stream" and shared_stream:
            src = it["stream"]
        elif via == "str":
            src = it["path"]
        elif via == "Path":
            src = pathlib.Path(it["path"])
        else:
            src = io.BytesIO(it["data"])
        kw, sheet, exp = dict(it["kw"]), it["case"].get("sheet", 0), it["exp"]
        how = op["how"]
        plain = how == "plain" and not pause
        calls = [0]

        def boom(*_a):
            calls[0] += 1
            if calls[0] == op["at"]:
                raise Caller(how)
            return False

        if how == "no sheet":
            sheet, exp = "no such sheet", "no such sheet"
        elif how == "callback raises":
            kw["row_callback"] = boom
        elif how == "nulls raise":
            kw["null_values"] = boom
            exp = None
        elif how == "long header":
            kw["header"] = ["a"] * 50
            exp = "header length" if isinstance(exp, o.Exp) else None
        elif pause:
            n = [op["at"]]

            def nap(*_a):
                n[0] = (n[0] * 1103515245 + 12345) % 2**31
                if n[0] % 7 < pause:
                    time.sleep(0 if n[0] % 3 else 0.0002)

            kw["row_callback"] = nap
        before = (it["data"], src.getvalue() if isinstance(src, io.BytesIO) else None)
        err = None
        try:
            t = read(src, sheet, **kw)
        except Exception as e:
            err = e
        return {"it": it, "op": op, "src": src, "exp": exp, "err": err, "table": None if err else t, "raised": how.endswith(("raises", "raise")) and calls[0] >= op["at"], "before": before, "plain": plain}


def judge(r):
    """The outcome against the reference; returns whether it was determined."""
    it, exp, err = r["it"], r["exp"], r["err"]
    if it["kw"] != rc.to_kwargs(it["case"].get("kw", {})):
        raise Violation(f"read changed its arguments: {it['kw']!r:.500}")
    if r["plain"]:
        # the same as the first time
        if it["first"] is None:
            it["first"] = ("raised", None) if err is not None else ("table", r["table"])
        elif (it["first"][0] == "raised") != (err is not None):
            raise Violation(f"{r['op']!r}: {rc.describe(err) if err else 'a table'}, other than the first time")
        elif err is None:
            same_table(it["first"][1], r["table"], "read again")
    src = r["src"]
    if isinstance(src, io.BytesIO):
        if src.closed:
            raise Violation("read closed the stream it was given")
        if src.getvalue() != it["data"]:
            raise Violation("read changed the stream it was given")
    else:
        with open(it["path"], "rb") as f:
            if f.read() != it["data"]:
                raise Violation("read changed the file")
    if r["raised"]:
        if err is None:
            raise Violation(f"{r['op']['how']}: read returned a table")
        return True
    if isinstance(exp, o.Exp):
        if err is not None:
            raise Violation(f"{r['op']!r}: read raised {rc.describe(err)}")
        rc.validate(r["table"])
        m = exp.check(r["table"])
        if m:
            raise Violation(f"{r['op']!r}: {m}")
        return True
    if isinstance(exp, str):
        if err is None:
            raise Violation(f"{r['op']!r}: read returned a table instead of raising ({exp})")
        return True
    if err is None:
        rc.validate(r["table"])
    return False


def state():
    return set(threading.enumerate()), len(os.listdir("/proc/self/fd"))


def settled(s0, what):
    th, fds = state()
    left = [t.name for t in th - s0[0]]
    if left:
        raise Violation(f"threads left running after {what}: {left}")
    if fds != s0[1]:
        raise Violation(f"{fds - s0[1]} file(s) left open after {what}")


def work_tmp():
    from ..runner import VERIF

    d = VERIF / ".work"
    d.mkdir(exist_ok=True)
    return tempfile.mkdtemp(dir=d)


def check(case):
    tmp = work_tmp()
    determined = errors = par = 0
    old = sys.getswitchinterval()
    try:
        w = World(case, tmp)
        s0 = state()
        for op in case["ops"]:
            if "rewrite" in op:
                w.rewrite(op)
                continue
            if isinstance(op, dict):
                r = w.op(op)
                settled(s0, f"{op!r} ({'raised ' + rc.describe(r['err']) if r['err'] else 'returned'})")
                determined += judge(r)
                errors += r["err"] is not None
                r = None
                continue
            par += 1
            results = [None] * len(op)
            gate = threading.Barrier(len(op))

            def one(i, op=op, results=results, gate=gate):
                gate.wait()
                results[i] = w.op(op[i], shared_stream=False, pause=case.get("pause", 0))

            ts = [threading.Thread(target=one, args=(i,)) for i in range(len(op))]
            sys.setswitchinterval(1e-5)
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            sys.setswitchinterval(old)
            settled(s0, f"{len(op)} concurrent reads")
            if any(r is None for r in results):
                raise Violation("a concurrent read raised no ordinary exception")
            for r in results:
                determined += judge(r)
                errors += r["err"] is not None
            results.clear()
        # and every stream once more, at the end
        for i, it in enumerate(w.items):
            r = w.op({"w": i, "via": "stream", "how": "plain", "at": 1})
            settled(s0, "the last read")
            judge(r)
    finally:
        sys.setswitchinterval(old)
        shutil.rmtree(tmp, ignore_errors=True)
    label = f"{'parallel' if par else 'sequential'}/{'with errors' if errors else 'no errors'}"
    return label, determined >= 2


NT = "non-trivial: at least two reads whose outcome the reference reader determines"
SUBS = [
    Sub("histories", check, histories, 2400, rule=NT, repeat=3, hang_s=60),
    Sub("rewritings", check, rewritings, 700, rule=NT, repeat=3, hang_s=60),
    Sub("races", check, races, 400, rule=NT, repeat=20, hang_s=90),
]
