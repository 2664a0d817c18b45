"""The environment of the process does not change a table."""
import hashlib
import json
import os
import shutil
import subprocess
import sys

from .common import *
from .c17 import cases as many_sheets
from .c19 import work_tmp

RULE = "Batches of workbooks with drawn options, read in this process and in a fresh one under a drawn time zone, locale, hash seed, optimisation level, working directory and thread count; oracle: equal digests (names, types, values, or both raise)."

ENV = {
    "TZ": ["UTC", "EST5EDT", "XXX-14", "Asia/Kolkata", "America/New_York", "Pacific/Apia", "YYY+12:30"],
    "LC_ALL": ["C", "C.UTF-8", "POSIX"],
    "PYTHONHASHSEED": ["0", "1", "2", "3", "77", "4294967295"],
    "PYTHONUTF8": ["0", "1"],
    "PYTHONIOENCODING": ["latin-1", "utf-8"],
    "OMP_NUM_THREADS": ["1", "3"],
    "ARROW_USER_SIMD_LEVEL": ["NONE", "SSE4_2"],
    "RXLS_PERFORMANCE_WARNINGS": ["1"],
    "PYTHONOPTIMIZE": ["1", "2"],
    "PYTHONDEVMODE": ["1"],
    "PYTHONCOERCECLOCALE": ["0"],
}
NAMES = ["book", "Книга 1", "a b", "ß😀", "x.y", "#1"]


@st.composite
def cases(draw):
    env = draw(st.fixed_dictionaries({}, optional={k: st.sampled_from(v) for k, v in ENV.items()}))
    env.setdefault("PYTHONHASHSEED", draw(st.sampled_from(ENV["PYTHONHASHSEED"])))
    # names the process can encode
    name = draw(st.sampled_from(NAMES))
    if env.get("PYTHONUTF8") == "0" and env.get("LC_ALL") != "C.UTF-8":
        name = "book"
    files = []
    for i in range(draw(st.integers(4, 8))):
        c = draw(gen.option_case(profiles=["num", "date", "text", "datetext", "mixed", "mixed", "sparse"], max_rows=6))
        if draw(st.booleans()):
            c["kw"]["conflict_resolve"] = draw(st.sampled_from(["temporal", "all", "numeric"]))
        if draw(st.integers(0, 3)) == 0:
            # texts that several of the given formats read
            sh = c["spec"]["sheets"][0]["rows"]
            sh.append({"cells": [{"c": 20, "k": "n", "v": 44000.0, "s": next(i for i, f in enumerate(c["spec"]["xfs"]) if f in o.TEMPORAL_IDS)}]})
            sh += [{"cells": [{"c": 20, "k": "i", "v": t}]} for t in draw(st.lists(st.sampled_from(["01/02/2003", "11/10/2012", "07/07/2007"]), min_size=1, max_size=3))]
            c["kw"]["datetime_formats"] = draw(st.permutations(["%d/%m/%Y", "%m/%d/%Y", "%Y-%m-%d", "%e/%m/%Y"]))
            c["kw"]["conflict_resolve"] = draw(st.sampled_from(["temporal", "all"]))
            for k in ("take_rows", "skip_cols", "row_filters", "row_filters_strategy"):
                c["kw"].pop(k, None)
        elif draw(st.booleans()):
            # texts of the formats read without being told
            sh = c["spec"]["sheets"][0]["rows"]
            sh.append({"cells": [{"c": 21, "k": "n", "v": 44000.0, "s": next(i for i, f in enumerate(c["spec"]["xfs"]) if f in o.TEMPORAL_IDS)}]})
            sh += [{"cells": [{"c": 21, "k": "i", "v": t}]} for t, _ms in draw(st.lists(gen.date_texts(), min_size=1, max_size=3))]
            c["kw"]["conflict_resolve"] = draw(st.sampled_from(["temporal", "all"]))
        # arguments that may not fit the sheet
        x = draw(st.integers(0, 5))
        if x == 0:
            c["kw"]["dtypes"] = draw(st.lists(st.sampled_from(["large_string", "large_string", "int64", "float64", "ts:ms"]), max_size=5))
        elif x == 1:
            c["kw"]["header"] = draw(st.lists(st.sampled_from(["a", "b", "c"]), max_size=5))
        elif x == 2:
            k, v = draw(st.sampled_from([("take_rows", -1), ("skip_rows", -1), ("row_filters", [0, "a"]), ("row_filters_strategy", "xor"), ("row_filters_strategy", ["or", "or", "and"]), ("lookup_head", "zzz")]))
            c["kw"][k] = v
        elif x == 3:
            c["sheet"] = draw(st.sampled_from([1, 2, 7, -1, "none", "sheet1", ""]))
        files.append(c)
    # every sheet of a workbook of several sheets
    for i in range(draw(st.integers(0, 2))):
        c = draw(many_sheets())
        n = sum(s["kind"] == "worksheet" for s in c["spec"]["sheets"])
        files += [case_of(c["spec"], {}, k) for k in range(n)]
    return {"env": env, "files": files, "name": name, "relative": draw(st.sampled_from([None, "", "", "sub/", "a/b/", "./", "sub/../sub/", "../x/"]))}


def digest(path, sheet, kw):
    from rxls.reader import read

    try:
        t = read(path, sheet, **rc.to_kwargs(kw))
        cols = [(n, str(c.type), [repr(v) for v in o.pylist(c)]) for n, c in zip(t.column_names, t.columns)]
    except Exception as e:
        return "raises " + type(e).__name__
    return f"{t.num_rows} rows " + hashlib.sha256(json.dumps(cols, ensure_ascii=True).encode()).hexdigest()


def child():
    jobs = json.loads(sys.stdin.buffer.read())
    out = [digest(p, s, k) for p, s, k in jobs]
    sys.stdout.write(json.dumps(out))


def check(case):
    tmp = work_tmp()
    try:
        jobs = []
        cwd = os.path.join(tmp, "cwd")
        rel = case["relative"]
        at = os.path.normpath(os.path.join(cwd, rel or ""))
        os.makedirs(cwd)
        os.makedirs(at, exist_ok=True)
        books = [wb.build(c["spec"]) for c in case["files"]]
        for i, c in enumerate(case["files"]):
            p = os.path.join(at, f"{case['name']}{i}.{c['spec']['fmt']}")
            # another workbook of the same name, where the process stands
            with open(os.path.join(cwd, os.path.basename(p)), "wb") as f:
                f.write(books[i - 1])
            with open(p, "wb") as f:
                f.write(books[i])
            jobs.append([p, c.get("sheet", 0), c["kw"]])
        mine = [digest(*j) for j in jobs]
        if rel is not None:
            jobs = [[rel + os.path.basename(p), s, k] for p, s, k in jobs]
        env = {k: v for k, v in os.environ.items() if k not in ENV}
        env |= case["env"] | {"PYTHONPATH": os.pathsep.join(x for x in sys.path if x), "PYTHONDONTWRITEBYTECODE": "1"}
        r = subprocess.run([sys.executable, "-c", "from pbt.props import c32; c32.child()"], input=json.dumps(jobs).encode(), capture_output=True, env=env, cwd=cwd, timeout=300)
        if r.returncode:
            raise Violation(f"a process with {case['env']} ended with {r.returncode}: {r.stderr.decode(errors='replace')[-300:]}")
        theirs = json.loads(r.stdout)
        for i, (a, b) in enumerate(zip(mine, theirs)):
            if a != b:
                raise Violation(f"file {i} read with {case['env']} in {'the directory ' + repr(rel) if rel is not None else 'another directory'}: {b}, here: {a}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    n = sum("rows" in x for x in mine)
    return f"{len(mine)} files, {n} tables", n >= 2


SUBS = [Sub("processes", check, cases, 160, rule="non-trivial: at least two of the files give tables")]
