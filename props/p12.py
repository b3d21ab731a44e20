"""P12: cron tasks run at the times their expression names, in its time zone, each once."""
from __future__ import annotations

import calendar
from datetime import date, datetime, time, timedelta, timezone
from zoneinfo import ZoneInfo

from hypothesis import strategies as st

from docket import Cron
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *
from vlib.sim import _L

MONTHS = "JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split()
DAYS = "SUN MON TUE WED THU FRI SAT".split()
KEYWORDS = {"@yearly": "0 0 1 1 *", "@annually": "0 0 1 1 *", "@monthly": "0 0 1 * *", "@weekly": "0 0 * * 0",
            "@daily": "0 0 * * *", "@midnight": "0 0 * * *", "@hourly": "0 * * * *"}
ZONES = ["UTC", "UTC", "America/Los_Angeles", "Europe/Berlin", "Asia/Tokyo", "Asia/Kolkata", "Australia/Lord_Howe",
         "America/Sao_Paulo", "Pacific/Apia", "fixed+05:45"]


def zone(name: str):
    if name == "UTC":
        return timezone.utc
    if name.startswith("fixed"):
        return timezone(timedelta(hours=5, minutes=45))
    return ZoneInfo(name)


# -- an independent reading of an expression (a set per field) --------------


@st.composite
def field(draw, lo: int, hi: int, names: list[str] | None = None, base: int = 0):
    """(text, set of values)"""
    def show(v):
        if names and draw(st.booleans()) and base <= v < base + len(names):
            n = names[v - base]
            return n if draw(st.booleans()) else n.lower()
        return str(v)

    kind = draw(st.sampled_from(["star", "star", "one", "one", "range", "step", "list", "rangestep"]))
    if kind == "star":
        return "*", list(range(lo, hi + 1))
    if kind == "one":
        v = draw(st.integers(lo, hi))
        return show(v), [v]
    if kind == "step":
        n = draw(st.integers(1, hi))
        return f"*/{n}", list(range(lo, hi + 1, n))
    a = draw(st.integers(lo, hi))
    b = draw(st.integers(a, hi))
    if kind == "range":
        return f"{show(a)}-{show(b)}", list(range(a, b + 1))
    if kind == "rangestep":
        n = draw(st.integers(1, max(hi - lo, 1)))
        if b == a:
            return f"{show(a)}", [a]
        return f"{a}-{b}/{n}", list(range(a, b + 1, n))
    vs = draw(st.lists(st.integers(lo, hi), min_size=2, max_size=4))
    return ",".join(show(v) for v in vs), sorted(set(vs))


@st.composite
def expression(draw):
    if draw(st.integers(0, 7)) == 0:
        k = draw(st.sampled_from(sorted(KEYWORDS)))
        sets = {"@yearly": ([0], [0], [1], [1], None), "@annually": ([0], [0], [1], [1], None),
                "@monthly": ([0], [0], [1], None, None), "@weekly": ([0], [0], None, None, [0]),
                "@daily": ([0], [0], None, None, None), "@midnight": ([0], [0], None, None, None),
                "@hourly": ([0], None, None, None, None)}[k]
        full = [range(60), range(24), range(1, 32), range(1, 13), range(7)]
        return {"text": k, "min": list(sets[0]), "hour": list(sets[1] or full[1]),
                "dom": list(sets[2] or full[2]), "month": list(sets[3] or full[3]), "dow": list(sets[4] or full[4]),
                "either": False}
    m, h = draw(field(0, 59)), draw(field(0, 23))
    mo = draw(field(1, 12, MONTHS, 1))
    which = draw(st.sampled_from(["none", "none", "dom", "dow", "both"]))
    dom = dow = ("*", None)
    if which in ("dom", "both"):
        dom = draw(field(1, 31))
    if which in ("dow", "both"):
        dow = draw(field(0, 7, DAYS, 0))
    if which == "both" and (dom[0].startswith("*") or dow[0].startswith("*")):
        dom = ("*", None)  # "*/n" with a restricted other day field means different things to different crons
    doms = dom[1] or list(range(1, 32))
    dows = sorted({v % 7 for v in dow[1]}) if dow[1] else list(range(7))
    return {"text": f"{m[0]} {h[0]} {dom[0]} {mo[0]} {dow[0]}", "min": m[1], "hour": h[1], "dom": doms,
            "month": mo[1], "dow": dows, "either": dom[0] != "*" and dow[0] != "*"}


def day_matches(x, d: date) -> bool:
    if d.month not in x["month"]:
        return False
    a, b = d.day in x["dom"], (d.weekday() + 1) % 7 in x["dow"]
    return (a or b) if x["either"] else (a and b)


def matches(x, local: datetime) -> bool:
    return (day_matches(x, local.date()) and local.hour in x["hour"] and local.minute in x["min"]
            and local.second == 0 and local.microsecond == 0)


def following(x, tz, after: datetime, days: int = 366 * 9) -> datetime | None:
    """The first match after ``after`` by local wall clock, ignoring odd days (see odd())."""
    local = after.astimezone(tz)
    d = local.date()
    for n in range(days):
        if day_matches(x, d):
            for h in x["hour"]:
                for m in x["min"]:
                    c = datetime.combine(d, time(h, m), tzinfo=tz)
                    if c.replace(tzinfo=None) > local.replace(tzinfo=None):
                        return c
        d += timedelta(days=1)
    return None


def odd(tz, d: date) -> bool:
    """Whether the UTC offset changes around this local date."""
    lo = datetime.combine(d - timedelta(days=1), time(0), tzinfo=tz)
    hi = datetime.combine(d + timedelta(days=2), time(0), tzinfo=tz)
    return lo.utcoffset() != hi.utcoffset()


START = int(datetime(2023, 1, 1, tzinfo=timezone.utc).timestamp())
interesting = [int(datetime(*a, tzinfo=timezone.utc).timestamp()) for a in [
    (2024, 2, 28, 23, 59, 50), (2023, 12, 31, 23, 59, 30), (2025, 3, 9, 8, 0), (2025, 11, 2, 7, 30), (2025, 3, 30, 0, 0),
    (2024, 2, 29, 12, 0), (2025, 4, 30, 23, 59, 59), (2024, 10, 26, 22, 0)]]
epochs = st.one_of(st.integers(START, START + 4 * 366 * 86400), st.sampled_from(interesting),
                   st.builds(lambda b, o: b + o, st.sampled_from(interesting), st.integers(-90000, 90000)))


@st.composite
def time_cases(draw, tier):
    return {"epoch": draw(epochs) + draw(st.sampled_from([0, 0, 0.25, 0.999])), "tz": draw(st.sampled_from(ZONES)),
            "expr": draw(expression()), "n": draw(st.integers(1, 6)),
            "wait": draw(st.sampled_from([0, 30, 3600, 86400 * 3, 86400 * 200]))}


def check_next(x, tz, after: datetime, got: datetime, seen: Seen, where: str) -> None:
    need(got.timestamp() > after.timestamp(), f"{where}: {got} is not after {after}", "past")
    want = following(x, tz, after)
    need(want is not None, f"{where}: {got} but there is no match", "model")
    first, last = after.astimezone(tz).date(), max(got, want).astimezone(tz).date()
    d = first
    checked = 0
    while d <= last and checked < 4000:
        if (d == first or d == last or (last - d).days < 2 or day_matches(x, d)) and odd(tz, d):
            seen.hit("odd-day")
            return
        d += timedelta(days=1)
        checked += 1
    need(got == want, f"{where}: after {after.astimezone(tz)} comes {got}, not {want}", "wrong-time")
    need(matches(x, got.astimezone(tz)), f"{where}: {got} does not match", "no-match")
    seen.hit("exact")


def run_times(case, seen: Seen) -> None:
    x, tz = case["expr"], zone(case["tz"])
    if min(x["dom"]) > max(calendar.monthrange(2024, m)[1] for m in x["month"]):
        return  # such as 31 * 2, which is refused
    if following(x, tz, datetime.fromtimestamp(case["epoch"], timezone.utc)) is None:
        return

    async def main(sim):
        cron = Cron(x["text"], tz=tz)
        where = f"{x['text']!r} in {case['tz']}"
        after = utcnow()
        for _ in range(case["n"]):
            got = cron.next_time()
            check_next(x, tz, after, got, seen, where)
            after = got
        # a later (re)scheduling starts from the present
        _L.vclock_advance(int(case["wait"] * 1e9))
        for _ in range(2):
            now = utcnow()
            check_next(x, tz, now, cron.initial_when, seen, f"{where}, scheduled {case['wait']} s later")
        seen.nontrivial = not x["text"].startswith("* * * * *")
        need(cron.automatic and cron.tz == tz, "automatic or tz dropped", "fields")

    simulate({"seed": 0, "lat": "zero", "epoch": case["epoch"]}, main)


# -- workers keeping the schedule ---------------------------------------------


@st.composite
def run_cases(draw, tier):
    workers = draw(st.integers(1, 2))
    n = draw(st.integers(2, 5))
    minutes = draw(st.sampled_from([("*", list(range(60))), ("*/2", list(range(0, 60, 2))), ("*/5", list(range(0, 60, 5))),
                                    ("1-59/3", list(range(1, 60, 3))), ("0,1,4,7,30", [0, 1, 4, 7, 30])]))
    base = draw(st.sampled_from([1750000000, *interesting]))
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])),
        "epoch": base + draw(st.integers(0, 7200)), "tz": draw(st.sampled_from(["UTC", "Asia/Kolkata", "Europe/Berlin"])),
        "expr": {"text": f"{minutes[0]} * * * *", "min": minutes[1], "hour": list(range(24)), "dom": list(range(1, 32)),
                 "month": list(range(1, 13)), "dow": list(range(7)), "either": False},
        "manual": draw(st.sampled_from([None, None, 0, 13.4, 65, 179])),
        "workers": workers, "before": draw(st.sampled_from([0, 40, 100])), "minutes": draw(st.integers(4, 9)),
        "durs": draw(st.lists(st.sampled_from([0, 0, 0.5, 20, 70, 150]), min_size=n, max_size=n)),
        "fails": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
    }


def run_runs(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]
    x, tz = case["expr"], zone(case["tz"])

    async def main(sim):
        lab = Lab(sim)
        runs = []

        async def tick(cron: Cron = Cron(x["text"], tz=tz, automatic=case["manual"] is None)):
            n = len(runs)
            runs.append([utcnow(), None])
            await asyncio.sleep(case["durs"][n % len(case["durs"])])
            runs[n][1] = utcnow()
            if case["fails"][n % len(case["fails"])]:
                raise ValueError("scripted")

        lab.tasks = [tick]
        await asyncio.sleep(case["before"])
        up = utcnow()
        ws = [lab.start_worker(f"w{i}", scheduling_resolution=S(0.5), minimum_check_interval=S(0.5))
              for i in range(case["workers"])]
        first = None
        if case["manual"] is not None:
            # started by hand, at any moment
            first = utcnow() + S(case["manual"])
            async with lab.docket() as d:
                await d.add(tick, when=first)()
            first = max(first, up)
        await asyncio.sleep(case["minutes"] * 60)
        stop = utcnow()
        tol = S(2 * slack + 1.3)

        def due_after(t):
            return {following(x, tz, t), following(x, tz, t - S(slack)), following(x, tz, t + S(slack + 0.5))}

        prev_start, prev_end = up, None
        for n, (s, e) in enumerate(runs):
            lo = min(due_after(prev_start))
            hi = max(due_after(prev_start))
            if n == 0 and first:
                lo, hi = first, first + S(3 * slack)
            if prev_end is not None:
                lo, hi = max(lo, prev_end), max(hi, prev_end)
            need(s >= lo - S(0.001), f"run {n} of {x['text']!r} at {s}, due {lo}", "early")
            need(s <= hi + tol, f"run {n} of {x['text']!r} at {s}, due {hi}", "late")
            if (n or not first) and (prev_end is None or prev_end < lo):
                need(s.astimezone(tz).minute in x["min"], f"run {n} of {x['text']!r} at {s}", "no-match")
            prev_start, prev_end = s, e
            if e is None:
                break
        else:
            hi = max(due_after(prev_start)) if runs or not first else first + S(3 * slack)
            if prev_end is not None:
                hi = max(hi, prev_end)
            need(stop <= hi + tol, f"{len(runs)} runs of {x['text']!r}, the last at {prev_start}; nothing since", "halted")
        seen.hit("runs", len(runs))
        seen.nontrivial = len(runs) >= 2
        await close_all(*ws)

    simulate(case, main)


PARTS = [
    Part("times", time_cases, run_times, quick=3000, thorough=300_000, rule="any expression but '* * * * *'"),
    Part("runs", run_cases, run_runs, quick=80, thorough=4_000, rule="the task ran twice or more"),
]
