"""P26: an agenda's tasks are scattered evenly over the window asked for, each scheduled and run once."""
import random as _random
from datetime import timedelta, timezone

from hypothesis import strategies as st

from docket import Agenda
from vlib.engine import Part, Seen
from vlib.gens import seeds, times, worn
from vlib.lab import *

NAMES = {"alpha": ["alpha"], "beta": ["bee", "other"], "gamma": ["gamma", "gee"]}
CALLS = ["alpha", "bee", "other", "gamma", "gee", ">alpha", ">gamma", ">fresh"]  # ">": given as the function itself


@st.composite
def cases(draw, tier):
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, 30)))
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])), "workers": draw(st.integers(1, 2)),
        "worn": draw(worn),
        "items": draw(st.lists(st.fixed_dictionaries({
            "call": st.one_of(st.sampled_from(CALLS), st.sampled_from(["alpha", ">alpha"])),
            "key": st.one_of(st.none(), st.integers(0, 40), st.integers(0, 40), st.integers(0, 3)),
            "arg": st.one_of(st.integers(0, 5), st.text("ab\x00é", max_size=3), st.none()), "how": st.sampled_from(WRITTEN)}),
            min_size=n, max_size=n)),
        "over": draw(st.one_of(st.sampled_from([0.000001, 0.001, 1, 3, 60, 600]), st.sampled_from([1, 5, 20, 100]), st.sampled_from([2, 10]), st.floats(0.0005, 40).map(lambda x: round(x, 6)))),
        "start": draw(st.sampled_from([None, None, 0, 0.5, 7, -3, -30])),
        "jitter": draw(st.sampled_from([None, None, 0, 0.2, 2, 100])),
        "zone": draw(st.sampled_from([0, 0, 5.5, -8])),
        "oops": draw(st.sampled_from([""] * 12 + ["unknown", "zero", "negative"])), "unknown": draw(st.integers(0, n)),
        "strike": draw(st.sampled_from([None, None, None, "alpha", "bee", "fresh"])),
        "scatters": draw(st.lists(times(10, 0.1), min_size=1, max_size=3)),
        "cleared": draw(st.booleans()),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]
    items = case["items"]
    over, jitter = {"zero": 0, "negative": -1}.get(case["oops"], case["over"]), case["jitter"]
    where = case["unknown"] if case["oops"] == "unknown" else None

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(30))

        def body(name):
            async def task(n: int, arg=None, *, extra=0):
                lab.rec("start", n=n, arg=arg, fn=name, extra=extra)
            task.__name__ = name
            return task

        fns = {n: body(n) for n in ["alpha", "beta", "gamma", "fresh"]}
        lab.tasks = [(fns[n], names) for n, names in NAMES.items()]
        keys = {i["key"] for i in items if i["key"] is not None}
        await lab.wear([K(case, k) for k in keys], case["worn"])
        ws = [lab.start_worker(f"w{i}", docket_kw={"tasks": [*lab.tasks, fns["fresh"]]}) for i in range(case["workers"])]

        agenda = Agenda()
        need(len(agenda) == 0 and list(agenda) == [], "a new agenda isn't empty", "agenda")
        if case["cleared"]:
            agenda.add("nobody knows")(1)
            agenda.clear()
            need(len(agenda) == 0, "a cleared agenda isn't empty", "agenda")
        plan = []
        for n, it in enumerate(items):
            if n == where:
                agenda.add("nobody knows")(1)
            call = it["call"]
            args, kw = spread(fns["alpha"], it["how"], n=n, arg=it["arg"])
            agenda.add(fns[call[1:]] if call[0] == ">" else call, key=None if it["key"] is None else K(case, it["key"]))(*args, **kw, extra=n)
            name = call.lstrip(">")
            fn = [f for f, names in NAMES.items() if name in names] or [name]
            plan.append({"n": n, "name": name, "fn": fn[0], "arg": it["arg"], "key": it["key"]})
        if where == len(items):
            agenda.add("nobody knows")(1)
        unknown = where is not None
        total = len(items) + unknown
        need(len(agenda) == total and len(list(agenda)) == total, f"{len(agenda)} tasks in the agenda, {total} were added", "agenda")

        async with lab.docket() as d:
            if case["strike"]:
                await d.strike(case["strike"])
                await asyncio.sleep(1 + slack)
            base = sim.now()
            runs = []  # what must run: (plan entry, earliest, latest)
            taken: dict = {}  # key -> until
            for at in case["scatters"]:
                await lab.until(base + at)
                t0 = sim.now()
                start = None
                if case["start"] is not None:
                    start = (utcnow() + S(case["start"])).astimezone(timezone(timedelta(hours=case["zone"])))
                before = lab.backlog()
                try:
                    got = await agenda.scatter(d, S(over), start, None if jitter is None else S(jitter))
                except Exception as e:
                    want = ValueError if over <= 0 else KeyError if unknown else None
                    need(want and isinstance(e, want), f"scatter raised {e!r}", "raised")
                    need(d is not None and sum(lab.backlog()) <= sum(before), f"a refused scatter scheduled something: {before} -> {lab.backlog()}", "refused")
                    seen.hit("refused")
                    continue
                need(over > 0 and not unknown, f"scatter accepted over={over} s{' and an unknown task' if unknown else ''}", "accepted")
                t1 = sim.now()
                need(len(got) == len(items), f"{len(got)} executions for {len(items)} tasks", "count")
                lo, hi = (start, start) if start else (lab.when(t0), lab.when(t1))
                times_ = []
                for p, ex in zip(plan, got):
                    n = p["n"]
                    share = S(over) / 2 if len(items) == 1 else S(over) * n / (len(items) - 1)
                    j = S(jitter or 0)
                    eps = timedelta(microseconds=len(items) + 2)
                    early, late = max(lo + share - j, lo), hi + share + j
                    if jitter:
                        late = max(late, hi)
                    need(early - eps <= ex.when <= late + eps, f"task {n} of {len(items)} is due at start {ex.when - lo}, over {over} s with jitter {jitter}", "when")
                    times_.append(ex.when - lo)
                    need(ex.function_name == p["name"], f"task {n} given as {p['name']} is scheduled as {ex.function_name}", "name")
                    key = ex.key
                    if p["key"] is not None:
                        need(key == K(case, p["key"]), f"task {n} has key {key}", "key")
                    else:
                        need(key not in taken, f"key {key} was given twice", "key")
                    due = (ex.when - utcnow()).total_seconds() + sim.now()
                    now = sim.now()
                    struck = case["strike"] is not None and p["name"] == case["strike"]
                    if struck:
                        need(ex.disposition.value == "struck", f"struck task {n} is {ex.disposition.value}", "struck")
                        seen.hit("struck")
                        continue
                    busy = taken.get(key)
                    if busy is not None and busy[1] >= t0 - slack:
                        if busy[0] > now + 0.005:  # certainly there still
                            need(ex.disposition.value == "already_scheduled", f"task {n}, key {key}: {ex.disposition.value} while an earlier one was pending", "twice")
                            seen.hit("kept")
                        elif ex.disposition.value == "already_scheduled":
                            continue
                    else:
                        need(ex.disposition.value == "scheduled", f"task {n}, key {key}: {ex.disposition.value}", "disposition")
                    if ex.disposition.value == "scheduled":
                        taken[key] = (due, max(due, now) + 2 * slack + 1)
                        runs.append((p, max(due, t0), max(due, now)))
                seen.hit("jittered", bool(jitter))
                if len(items) > 1:
                    seen.nontrivial = True
            # nothing late: wait for the last
            await lab.until(max([sim.now()] + [l for _, _, l in runs]) + 3 + 3 * slack)
        await close_all(*ws)
        for p in plan:
            mine = [e for e in lab.of("start") if e["n"] == p["n"]]
            want = sorted((a, b) for q, a, b in runs if q is p)
            need(len(mine) == len(want), f"task {p['n']} was scheduled {len(want)} times and ran {len(mine)} times", "runs")
            for e, (a, b) in zip(mine, want):
                need(e["fn"] == p["fn"] and e["arg"] == p["arg"] and e["extra"] == p["n"], f"task {p} ran as {e}", "call")
                need(a - 0.002 <= e["t"] <= b + 2 * slack + 1, f"task {p['n']} due between {a:.3f} and {b:.3f} ran at {e['t']:.3f}", "time")

    state = _random.getstate()
    _random.seed(case["seed"])
    try:
        simulate(case, main)
    finally:
        _random.setstate(state)


# -- what jitter is for -----------------------------------------------------------
@st.composite
def herds(draw, tier):
    return {"seed": draw(seeds), "lat": "zero", "n": draw(st.integers(30, 60)), "over": draw(st.sampled_from([300, 1000])),
            "jitter": draw(st.sampled_from([1, 4, 60])), "start": draw(st.sampled_from([None, 0, 100, -20]))}


def run_herd(case, seen: Seen) -> None:
    """Tasks are moved by jitter each on its own, to either side."""
    async def main(sim):
        lab = Lab(sim)

        async def task():
            pass

        lab.tasks = [task]
        agenda = Agenda()
        for _ in range(case["n"]):
            agenda.add(task)()
        async with lab.docket() as d:
            start = None if case["start"] is None else utcnow() + S(case["start"])
            got = await agenda.scatter(d, S(case["over"]), start, S(case["jitter"]))
            begin = start or utcnow()
            moved = [(ex.when - begin - S(case["over"]) * i / (case["n"] - 1)).total_seconds() for i, ex in enumerate(got)]
            # those close to the start can't be moved before it
            free = [m for i, m in enumerate(moved) if case["over"] * i / (case["n"] - 1) > case["jitter"]]
            need(len({round(m, 3) for m in free}) > len(free) / 2, f"tasks are moved by the same jitter: {moved}", "shared")
            need(min(free) < 0 < max(free), f"tasks are moved to one side only: {moved}", "one-sided")
            seen.nontrivial = True

    simulate(case, main)


PARTS = [Part("herds", herds, run_herd, quick=60, thorough=500, rule="many tasks were scattered with jitter"),
         Part("scatter", cases, run, quick=600, thorough=30_000, rule="an agenda of two tasks or more was scattered")]
