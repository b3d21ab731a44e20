"""P08: a task never starts before its time, and starts promptly once due if a worker has room."""
from __future__ import annotations

from datetime import timedelta, timezone

from hypothesis import strategies as st

from vlib.engine import Part, Seen
from vlib.gens import profiles, seeds, times, units
from vlib.lab import *


FAR = 86_400_000


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(profiles),
        "workers": draw(st.integers(1, 3)), "concurrency": draw(st.sampled_from([1, 3, 50])),
        "check": draw(st.sampled_from([0.05, 0.25, 1.0])), "resolution": draw(st.sampled_from([0.05, 0.25, 1.0])),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": times(6, 0.05),
            "when": st.one_of(st.none(), st.integers(-5000, 20_000), st.sampled_from([0, 1, 2, 250, 999, 1000, FAR])),
            "tz": st.sampled_from([0, 0, 330, -720, 840]),
            "dur": st.sampled_from([0, 0, 0.3]),
            "how": st.sampled_from(["add", "add", "replace"]),
        }), min_size=1, max_size=20 if tier == "thorough" else 12)),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)

        async def work(i: int, dur: float):
            lab.rec("start", i=i, now=utcnow())
            await asyncio.sleep(dur)
            lab.rec("end", i=i)

        lab.tasks = [work]
        ws = [lab.start_worker(f"w{i}", concurrency=case["concurrency"], minimum_check_interval=S(case["check"]),
                               scheduling_resolution=S(case["resolution"])) for i in range(case["workers"])]
        await asyncio.sleep(0.5 + slack)
        base = sim.now()
        due, back = {}, {}
        async with lab.docket() as d:
            async def submit(i, t):
                await lab.until(base + t["at"])
                when = None
                if t["when"] is not None:
                    when = (utcnow() + S(t["when"] / 1000)).astimezone(timezone(timedelta(minutes=t["tz"])))
                called = utcnow()
                if t["how"] == "add":
                    ex = await d.add(work, when=when, key=K(case, i))(i, t["dur"])
                else:
                    await d.add(work, when=utcnow() + S(1000), key=K(case, i))(-1, 0)
                    ex = await d.replace(work, when or utcnow(), K(case, i))(i, t["dur"])
                back[i] = sim.now()
                if when is not None:
                    need(ex.when == when, f"the execution's time {ex.when} is not the requested {when}", "when")
                due[i] = when or called
                state = ex.state.value
                return state

            await asyncio.gather(*(submit(i, t) for i, t in enumerate(case["tasks"])))
            near = [i for i, t in enumerate(case["tasks"]) if t["when"] != FAR]
            await lab.quiesce(lambda: len(lab.of("end")) >= len(near), limit=80)
            await asyncio.sleep(2)
            need(not lab.of("start", i=-1), "a replaced schedule ran", "stale")
            room = case["concurrency"] * case["workers"] >= len(case["tasks"])
            for i, t in enumerate(case["tasks"]):
                es = lab.of("start", i=i)
                if t["when"] == FAR:
                    need(not es, f"task {i} started a day early", "early")
                    continue
                need(len(es) == 1, f"task {i} (due {due[i]}) started {len(es)} times", "times")
                early = secs(due[i] - es[0]["now"])
                need(early <= 0.0005, f"task {i} started {early:.6f} s before its time", "early")
                ready = max(back[i], secs(due[i] - utcnow()) + sim.now())
                late = es[0]["t"] - ready
                if room:
                    limit = case["resolution"] + case["check"] + 2 * slack
                    need(late <= limit, f"task {i} started {late:.3f} s after it was due, with room for it "
                         f"(resolution {case['resolution']}, check interval {case['check']})", "late")
                    seen.hit("prompt")
                if t["when"] is not None and t["when"] > 0:
                    seen.hit("future")
                    seen.nontrivial = True
                elif t["when"] is not None:
                    seen.hit("past")
        await close_all(*ws)

    simulate(case, main)


# -- the backlog drains: no ready task waits while a slot is free ------------


@st.composite
def drain_cases(draw, tier):
    return {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(st.sampled_from(["zero", "lan"])),
        "concurrency": draw(st.integers(1, 5)), "workers": draw(st.integers(1, 2)),
        "durs": draw(st.lists(st.sampled_from([0, 0.5, 1, 2, 5]), min_size=2, max_size=14)),
        "future": draw(st.lists(st.sampled_from([0, 0, 1, 2.5]), min_size=14, max_size=14)),
    }


def run_drain(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)

        async def work(i: int, dur: float):
            lab.rec("start", i=i)
            await asyncio.sleep(dur)
            lab.rec("end", i=i)

        lab.tasks = [work]
        async with lab.docket() as d:
            t0 = sim.now()
            for i, dur in enumerate(case["durs"]):
                await d.add(work, when=utcnow() + S(case["future"][i]), key=K(case, i))(i, dur)
        ws = [lab.start_worker(f"w{i}", concurrency=case["concurrency"]) for i in range(case["workers"])]
        await lab.quiesce(lambda: len(lab.of("end")) >= len(case["durs"]), limit=120)
        need(len(lab.of("end")) == len(case["durs"]), "not every task ran", "lost")
        cap = case["concurrency"] * case["workers"]
        # whenever a task starts late, all slots were taken shortly before
        starts = {e["i"]: e["t"] for e in lab.of("start")}
        ends = {e["i"]: e["t"] for e in lab.of("end")}
        up = 1.5
        for i, s in starts.items():
            ready = max(t0 + case["future"][i], up)
            t = ready + 0.8
            while t < s - 0.8:
                busy = sum(1 for j in starts if starts[j] <= t + 0.7 and ends[j] >= t - 0.7)
                need(busy >= cap, f"task {i} was ready at {ready:.2f} but started at {s:.2f}, although at t={t:.2f} only "
                     f"{busy} of {cap} slots were in use", "idle-slot")
                seen.nontrivial = True
                t += 0.3
        seen.hit("tasks", len(starts))
        await close_all(*ws)

    simulate(case, main)


PARTS = [
    Part("timing", cases, run, quick=900, thorough=50_000, rule="a task was scheduled for the future"),
    Part("drain", drain_cases, run_drain, quick=300, thorough=15_000, rule="some ready task had to wait for a slot"),
]
