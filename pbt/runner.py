"""Runs the checks of one property: shards, shrinking, crash confirmation, replay, evidence.

    main process ── 8 worker processes (one per shard) ── Hypothesis over each Sub of the property

A Sub is one generated-input search: a strategy of JSON cases and a `check(case)` that raises
Violation or returns (label, nontrivial).  See DESIGN.md, "Runner".
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("RXLS_REPO", "/repo")
HANG_S = 90
MEM = 3 << 30


# How many times its n a quick run generates: more where a case costs little
MORE = {"C19": 1, "C27": 1, "C32": 1, "C04": 4, "C05": 3, "C10": 3, "C12": 3, "C13": 3, "C18": 3, "C20": 6, "C21": 4, "C22": 4, "C23": 3, "C29": 3, "C33": 5}


class Violation(Exception):
    pass


@dataclass
class Sub:
    name: str
    check: Callable[[Any], tuple[str, bool]]
    strategy: Callable[[], Any] | None = None
    n: int = 400  # cases over all shards, times MORE or `factor`
    enum: Callable[[str], Any] | None = None  # tier -> iterable of cases, dealt out to the shards
    factor: int = 25  # thorough multiplier
    rule: str = ""
    max_shards: int = 8
    repeat: int = 1  # how often a replay runs the case (schedule-dependent checks)
    hang_s: int = HANG_S
    tiers: tuple = ("quick", "thorough")
    rlimit: bool = True


@dataclass
class Prop:
    id: str
    subs: list[Sub]
    rule: str = ""
    assumptions: list[str] = field(default_factory=list)


def load(pid: str) -> Prop:
    mod = importlib.import_module(f"pbt.props.{pid.lower()}")
    return Prop(pid, mod.SUBS, getattr(mod, "RULE", ""), getattr(mod, "ASSUMPTIONS", []))


def dig(case) -> str:
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


def short(case, limit=1500):
    t = json.dumps(case, ensure_ascii=True)
    return case if len(t) <= limit else t[:limit] + "..."


def in_repo(e: BaseException) -> bool:
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(REPO) + os.sep):
            return True
        tb = tb.tb_next
    return False


def run_check(sub: Sub, case):
    """check(case); exceptions of the code under test are violations, those of the environment are not."""
    from .readcheck import Violation as V

    try:
        return sub.check(case)
    except V:
        raise
    except (MemoryError, Exception) as e:
        if in_repo(e):
            raise V(f"unexpected {type(e).__name__}: {str(e)[:300]}") from e
        if isinstance(e, (AttributeError, TypeError, ValueError, LookupError, ArithmeticError)):
            # the check handled what the code returned as what it has to be
            raise V(f"malformed result: {type(e).__name__}: {str(e)[:300]}") from e
        raise


# ------------------------------------------------------------------------------------- worker


class Out:
    def __init__(self, path):
        self.path = Path(path)
        self.cur = self.path.with_suffix(".cur")
        self.subs = {}
        self.violation = None
        self.findings = []
        self.skipped = 0

    def sub(self, name):
        return self.subs.setdefault(name, {"evaluations": 0, "labels": {}, "nontrivial": [], "samples": [], "wall_s": 0.0})

    def write(self):
        tmp = self.path.with_suffix(".tmp")
        tmp.write_text(json.dumps({"subs": self.subs, "violation": self.violation, "findings": self.findings, "skipped": self.skipped}))
        tmp.rename(self.path)


def worker(pid, shard, nshards, seed, tier, outpath, only=None):
    import faulthandler
    import resource

    faulthandler.enable()
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis.internal.conjecture import engine

    from .readcheck import Violation as V

    engine.MAX_SHRINKING_SECONDS = 25
    prop = load(pid)
    out = Out(outpath)
    budget = float(os.environ.get("VERIF_BUDGET_S", "260" if tier == "quick" else "2400"))
    t_end = time.monotonic() + budget
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if any(s.rlimit for s in prop.subs):
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    seen: dict[str, set] = {}

    def one(sub, case, counted=True):
        st = out.sub(sub.name)
        out.cur.write_text(json.dumps({"sub": sub.name, "case": case}))
        faulthandler.dump_traceback_later(sub.hang_s, exit=True)
        try:
            label, nontrivial = run_check(sub, case)
        finally:
            faulthandler.cancel_dump_traceback_later()
            if counted:
                st["evaluations"] += 1
        if counted:
            st["labels"][label] = st["labels"].get(label, 0) + 1
            if nontrivial:
                d = dig(case)
                s = seen.setdefault(sub.name, set())
                if d not in s:
                    s.add(d)
                    if len(st["samples"]) < 3 and len(json.dumps(case)) < 3000:
                        st["samples"].append({"label": label, "case": case})

    if shard == 0:
        subs = {s.name: s for s in prop.subs}
        for f in known(pid):
            try:
                one(subs[f["sub"]], f["case"], counted=False)
            except V as e:
                out.findings.append(f["what"])
            else:
                print(f"note: known finding no longer fails: {f['what']}", file=sys.stderr)

    for sub in prop.subs:
        if tier not in sub.tiers or shard >= sub.max_shards or (only and sub.name not in only):
            continue
        t0 = time.monotonic()
        k = min(nshards, sub.max_shards)
        fail = {}

        def run(case):
            if time.monotonic() > t_end and not fail:
                out.skipped += 1
                return
            try:
                one(sub, case, counted=not fail)
            except V as e:
                if not fail:
                    fail["first"] = case
                fail["case"], fail["msg"] = case, str(e)
                raise

        try:
            for i, case in enumerate(corpus(pid, sub.name)):
                if i % k == shard:
                    run(case)
            if sub.enum is not None:
                for i, case in enumerate(sub.enum(tier)):
                    if i % k == shard:
                        run(case)
            if sub.strategy is not None:
                n = sub.n * (sub.factor if tier == "thorough" else MORE.get(pid, 2))
                n = int(n * float(os.environ.get("VERIF_SCALE", "1")))
                n = n // k + (1 if shard < n % k else 0)
                if n:
                    s = int.from_bytes(hashlib.sha256(f"{seed}/{pid}/{sub.name}/{shard}".encode()).digest()[:8], "big")

                    @hseed(s)
                    @settings(
                        max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False,
                    )  # fmt: skip
                    @given(sub.strategy())
                    def test(case):
                        run(case)

                    test()
        except BaseException as e:
            if not fail or isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            out.violation = {"sub": sub.name, "case": fail["case"], "first": fail["first"], "message": fail["msg"]}
        st = out.sub(sub.name)
        st["wall_s"] = round(time.monotonic() - t0, 2)
        if out.violation:
            break
    for name, s in seen.items():
        out.subs[name]["nontrivial"] = sorted(s)
    out.write()


def corpus(pid, sub):
    """Committed regression cases of a sub (minimal cases of repaired defects and the like)."""
    d = VERIF / "corpus" / pid
    if not d.is_dir():
        return
    for f in sorted(d.glob("*.json")):
        j = json.loads(f.read_text())
        if j["sub"] == sub:
            yield j["case"]


def known(pid):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [x for x in json.loads(f.read_text())["findings"] if x["property"] == pid]


# ------------------------------------------------------------------------------------- replay


def replay_here(path) -> int:
    j = json.loads(Path(path).read_text())
    if "rerun" in j:
        r = j["rerun"]
        res = spawn_one(j["property"], r["shard"], r["nshards"], r["seed"], r["tier"], [j["sub"]])
        if res and res.get("violation"):
            print(f"VIOLATION property={j['property']} replay={path}")
            print("  " + res["violation"]["message"])
            return 1
        print("no violation")
        return 0
    import faulthandler
    import resource

    from .readcheck import Violation as V

    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    prop = load(j["property"])
    sub = next(s for s in prop.subs if s.name == j["sub"])
    if sub.rlimit:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    try:
        for _ in range(sub.repeat):
            faulthandler.dump_traceback_later(sub.hang_s + 30, exit=True)
            run_check(sub, j["case"])
            faulthandler.cancel_dump_traceback_later()
    except V as e:
        print(f"VIOLATION property={j['property']} replay={path}")
        print(f"  {e}")
        return 1
    print("no violation")
    return 0


# ------------------------------------------------------------------------------------- parent


def py(*args):
    return [sys.executable, str(VERIF / "check.py"), *args]


def spawn_one(pid, shard, nshards, seed, tier, only):
    d = workdir()
    try:
        out = d / "r.json"
        subprocess.run(py("--worker", pid, str(shard), str(nshards), str(seed), tier, str(out), ",".join(only)), cwd=VERIF, stderr=subprocess.DEVNULL)
        return json.loads(out.read_text()) if out.exists() else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


_n = 0


def workdir() -> Path:
    global _n
    _n += 1
    d = VERIF / ".work" / f"{os.getpid()}-{_n}"
    d.mkdir(parents=True, exist_ok=True)
    return d


def save_replay(pid, v) -> Path:
    (VERIF / "replays").mkdir(exist_ok=True)
    p = VERIF / "replays" / f"{pid}-{v['sub']}-{dig(v['case'])}.json"
    p.write_text(json.dumps({"property": pid, **v}, indent=1))
    return p


def confirm(path, times=1):
    """Replays in fresh processes: 'violation', 'crash', 'hang' or None."""
    for _ in range(times):
        r = subprocess.run(py("--replay", str(path)), cwd=VERIF, capture_output=True, text=True)
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            return "violation"
        if r.returncode == 1 and "Timeout" in r.stderr:
            return "hang"
        if r.returncode < 0 and r.returncode != -signal.SIGKILL:
            return f"crash (signal {-r.returncode})"
    return None


def main(pid: str) -> int:
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    nshards = int(os.environ.get("VERIF_SHARDS", "8"))
    t0 = time.monotonic()
    prop = load(pid)
    d = workdir()
    rc, messages, violations, notes, errors, results = 0, [], 0, [], [], {}

    def start(i, attempt=0):
        out = d / f"s{i}.{attempt}.json"
        err = open(out.with_suffix(".err"), "wb")
        p = subprocess.Popen(py("--worker", pid, str(i), str(nshards), str(seed), tier, str(out)), cwd=VERIF, stdout=err, stderr=err)
        return p, out, err, attempt

    def violated(i, v):
        """Confirms a violation a shard reported; returns True if it stands."""
        nonlocal rc, violations
        sub = next(s for s in prop.subs if s.name == v["sub"])
        for c in [v["case"]] + ([v["first"]] if v["first"] != v["case"] else []):
            if any(dig(f["case"]) == dig(c) and f["sub"] == v["sub"] for f in known(pid)):
                continue
            path = save_replay(pid, {"sub": v["sub"], "case": c, "message": v["message"], "seed": seed})
            if confirm(path, 2):
                rc, violations = 1, 1
                messages.append(f"VIOLATION property={pid} replay={path}\n  [{v['sub']}] {v['message']}")
                return True
            path.unlink()
        # does it need the cases before it?  the shard is a pure function of its seed
        r = spawn_one(pid, i, nshards, seed, tier, [v["sub"]])
        if r and r.get("violation"):
            path = save_replay(pid, {"sub": v["sub"], "case": v["case"], "message": v["message"], "seed": seed,
                                     "rerun": {"shard": i, "nshards": nshards, "seed": seed, "tier": tier}})  # fmt: skip
            rc, violations = 1, 1
            messages.append(f"VIOLATION property={pid} replay={path}\n  [{v['sub']}] after the cases before it: {v['message']}")
            return True
        notes.append(f"not reproduced: [{sub.name}] {v['message']}")
        return False

    def lost(i, code, out, attempt):
        """A shard that ended without a result: a crash or hang of the code under test, or an accident."""
        nonlocal rc, violations
        errtext = out.with_suffix(".err").read_bytes().decode("utf-8", "replace")
        cur = out.with_suffix(".cur")
        crashed = code < 0 and code != -signal.SIGKILL
        hung = code == 1 and "Timeout" in errtext
        if cur.exists() and (crashed or hung):
            c = json.loads(cur.read_text())
            what = "hangs" if hung else f"kills the process (signal {-code})"
            path = save_replay(pid, {"sub": c["sub"], "case": c["case"], "message": what, "seed": seed})
            if confirm(path, 2):
                rc, violations = 1, 1
                messages.append(f"VIOLATION property={pid} replay={path}\n  [{c['sub']}] {what}")
                return True
        if attempt == 0 and (code < 0 or hung):
            notes.append(f"shard {i} was lost (exit {code}) and not reproduced; it was run again")
            pending[i] = start(i, 1)
            return False
        errors.append(f"shard {i}: exit {code}\n{errtext[-3000:]}")
        return False

    pending = {i: start(i) for i in range(nshards)}
    try:
        while pending and not rc:
            time.sleep(0.05)
            for i, (p, out, err, attempt) in list(pending.items()):
                if p.poll() is None:
                    continue
                del pending[i]
                err.close()
                if p.returncode == 0 and out.exists():
                    results[i] = json.loads(out.read_text())
                    v = results[i]["violation"]
                    if v and violated(i, v):
                        break
                elif lost(i, p.returncode, out, attempt):
                    break
    finally:
        for p, _o, e, _a in pending.values():
            if p.poll() is None:
                p.kill()
                p.wait()
            e.close()

    if errors and rc == 0:
        rc = 2
    write_evidence(prop, results, seed, tier, t0, violations, notes + [e[:300] for e in errors])
    for f in sorted({f for r in results.values() for f in r["findings"]}):
        print(f"KNOWN-FINDING: property={pid} {f}")
    for m in messages:
        print(m)
    for n in notes:
        print("note:", n)
    for e in errors:
        print("ERROR", e, file=sys.stderr)
    shutil.rmtree(d, ignore_errors=True)
    if rc == 0:
        ev = sum(s["evaluations"] for r in results.values() for s in r["subs"].values())
        print(f"{pid}: held on {ev} cases, {time.monotonic() - t0:.1f} s")
    return rc


def write_evidence(prop, results, seed, tier, t0, violations, notes):
    subs, total, distinct, samples = {}, 0, 0, []
    for sub in prop.subs:
        rows = [r["subs"][sub.name] for _i, r in sorted(results.items()) if sub.name in r["subs"]]
        if not rows:
            continue
        labels: dict[str, int] = {}
        nt = set()
        ss = []
        for r in rows:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            nt.update(r["nontrivial"])
            ss += r["samples"]
        ev = sum(r["evaluations"] for r in rows)
        total += ev
        distinct += len(nt)
        subs[sub.name] = {"evaluations": ev, "distinct_nontrivial": len(nt), "labels": dict(sorted(labels.items())), "rule": sub.rule,
                          "max_shard_wall_s": max(r["wall_s"] for r in rows)}  # fmt: skip
        samples += [{"search": sub.name, **s} for s in ss[:2]]
    skipped = sum(r["skipped"] for r in results.values())
    rule = prop.rule + " " + " ".join(f"[{s.name}] {s.rule}" for s in prop.subs if s.name in subs)
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total, "distinct_nontrivial": distinct, "rule": rule.strip(), "samples": samples or ["none"], "searches": subs,
            "skipped_by_time_budget": skipped, "shards_finished": len(results),
        },
        "assumptions": prop.assumptions + notes,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": violations,
    }  # fmt: skip
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop.id}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=True) + "\n")


def cli(argv) -> int:
    if argv[0] == "--worker":
        pid, shard, nshards, seed, tier, out = argv[1:7]
        only = argv[7].split(",") if len(argv) > 7 else None
        try:
            worker(pid, int(shard), int(nshards), int(seed), tier, out, only)
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(3)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)  # leftover threads must not keep the process
    if argv[0] == "--replay":
        rc = replay_here(argv[1])
        sys.stdout.flush()
        os._exit(rc)
    if not re.fullmatch(r"C\d\d", argv[0]):
        print("usage: check.py <property> | --replay FILE", file=sys.stderr)
        return 2
    return main(argv[0])
