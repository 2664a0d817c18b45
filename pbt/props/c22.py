"""Serials and millisecond timestamps."""
from .common import *

RULE = "Millisecond timestamps and serials of 1900-01-01 to 9999-12-31 (every day in blocks, drawn times of day, both sides of 1900-03-01 and 1970), converted there and back; the converted value itself is checked against exact integer arithmetic."
DAY = 86_400_000
MAXD = 2_958_465


def arrays(days, ms):
    """(serials, timestamps) of day numbers and times of day; day 0 is a bare time."""
    import numpy as np

    days, ms = np.asarray(days, dtype=np.int64), np.asarray(ms, dtype=np.int64)
    serial = (days * DAY + ms) / np.float64(DAY)  # exact integers below 2^53, one rounding
    off = np.where(days == 0, 0, np.where(days < 60, 25568, 25569))
    return serial, (days - off) * DAY + ms


def same(got, want, what, src):
    import numpy as np

    ok = np.asarray(got) == want
    if len(got) != len(want) or not ok.all():
        k = int(np.argmin(ok))
        raise Violation(f"{what} of {src[k]!r} is {got[k]!r}, expected {want[k]!r}")


def verify(days, ms):
    import numpy as np
    from rxls.chunk.casts import f8_to_ms_win, ms_to_f8_win

    serial, stamp = arrays(days, ms)
    same(f8_to_ms_win(serial.copy()), stamp, "timestamp", serial)
    back = f8_to_ms_win(ms_to_f8_win(stamp.copy()))
    same(back, stamp, "timestamp there and back", stamp)
    days = np.asarray(days)
    keep = days != 25569  # stands for bare times
    same(ms_to_f8_win(stamp[keep].copy()), serial[keep], "serial", stamp[keep])
    same(ms_to_f8_win(f8_to_ms_win(serial[keep].copy())), serial[keep], "serial there and back", serial[keep])
    mid = ~keep
    if mid.any():
        same(ms_to_f8_win(stamp[mid].copy()), np.asarray(ms)[mid] / np.float64(DAY), "serial", stamp[mid])


BOUND = [0, 1, 2, 31, 32, 58, 59, 61, 62, 366, 367, 25567, 25568, 25569, 25570, 25571, 36525, MAXD - 1, MAXD]


@st.composite
def pairs(draw):
    day = st.one_of(st.sampled_from(BOUND), st.integers(0, MAXD), st.integers(0, 130), st.integers(25560, 25580)).filter(lambda d: d != 60)
    return {"pairs": draw(st.lists(st.tuples(day, gen.ms_of_day).map(list), min_size=1, max_size=30))}


def check_pairs(case):
    verify([p[0] for p in case["pairs"]], [p[1] for p in case["pairs"]])
    kinds = {"1900" if d < 61 else "before 1970" if d < 25569 else "after" for d, _ in case["pairs"]}
    return "/".join(sorted(kinds)), True


def day_blocks(tier):
    step = 1 << 14
    for lo in range(0, MAXD + 1, step):
        for k in range(2 if tier == "quick" else 64):
            yield {"lo": lo, "hi": min(lo + step, MAXD + 1), "mul": 2 * k + 1, "add": (k * 39916801 + lo) % DAY}


def check_days(case):
    import numpy as np

    days = np.arange(case["lo"], case["hi"], dtype=np.int64)
    days = days[days != 60]
    ms = (days * 48_271_001 * case["mul"] + case["add"]) % DAY
    verify(days, ms)
    verify(days, np.zeros_like(days))
    verify(days, np.full_like(days, DAY - 1))
    return "days", True


def time_blocks(tier):
    """Every millisecond of some days."""
    step = 1 << 20
    days = [1, 59, 61, 25568, 25569, 25570, 44197, MAXD, 0]
    for d in days if tier == "thorough" else days[:0]:
        for lo in range(0, DAY, step):
            yield {"day": d, "from": lo, "n": min(step, DAY - lo)}
    if tier == "quick":
        for d in days:
            for lo in range(0, DAY, step * 4):
                yield {"day": d, "from": lo, "n": min(1 << 14, DAY - lo)}


def check_times(case):
    import numpy as np

    ms = np.arange(case["from"], case["from"] + case["n"], dtype=np.int64)
    verify(np.full_like(ms, case["day"]), ms)
    return "times", True


SUBS = [
    Sub("pairs", check_pairs, pairs, 4000, rule="drawn arrays of moments"),
    Sub("days", check_days, enum=day_blocks, rule="every day of the range with midnight, the last millisecond and other times"),
    Sub("times", check_times, enum=time_blocks, rule="milliseconds of chosen days (thorough: all of them)"),
]
