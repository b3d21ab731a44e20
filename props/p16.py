"""P16: a debounced burst of submissions runs one task, once it has been quiet for the settle time."""
from typing import Annotated

from hypothesis import strategies as st

from docket import Debounce
from vlib.engine import Part, Seen
from vlib.gens import seeds, times, units
from vlib.lab import *

STYLES = ["param", "param", "param", "param2", "whole", "scoped"]


@st.composite
def cases(draw, tier, crashes=False):
    settle = draw(st.sampled_from([1, 3, 6]))
    big = tier == "thorough"
    gap = st.sampled_from([0, 0.1, 0.3, 0.5, 0.7, 0.9, 1.3, 1.8, 2.2, 3, 6])
    ats, now = [], 0.0
    steady = draw(st.sampled_from([0, 0, 0, 0, 0.6, 0.8]))  # one burst, many settle times long
    if steady:
        gaps = [steady] * draw(st.integers(16, 40 if big else 26)) + draw(st.lists(gap, max_size=2))
    else:
        gaps = draw(st.lists(gap, min_size=2, max_size=25 if big else 14))
    for g in gaps:
        now += g * settle
        ats.append(round(now, 4))
    customers, styles = ([0], [draw(st.sampled_from(STYLES))]) if steady else ([0, 0, 0, 1, "x"], STYLES)
    case = {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(st.sampled_from(["zero", "lan", "lan"])), "settle": settle,
        "workers": draw(st.integers(1, 3)),
        "tasks": [{"at": a, "customer": draw(st.sampled_from(customers)), "style": draw(st.sampled_from(styles)),
                   "how": draw(st.sampled_from(WRITTEN)),
                   "dur": draw(st.sampled_from([0, 0, settle * 0.5, settle * 1.5]))} for a in ats],
    }
    if crashes:
        case["kills"] = draw(st.lists(st.fixed_dictionaries({
            "worker": st.integers(0, case["workers"] - 1), "at": st.one_of(times(now + 2, 0.05), st.sampled_from(ats)),
        }), min_size=1, max_size=4))
        case["redelivery"] = draw(st.sampled_from([2, 5]))
    return case


def scope(t) -> str:
    return {"param": f"d:customer:{t['customer']}", "param2": f"d:customer:{t['customer']}", "whole": "d:whole",
            "scoped": f"elsewhere:customer:{t['customer']}"}[t["style"]]


def scenario(case, lab):
    w = S(case["settle"])

    async def body(i):
        lab.rec("start", i=i)
        await asyncio.sleep(case["tasks"][i]["dur"])
        lab.rec("end", i=i)

    async def param(i: int, customer: Annotated[object, Debounce(w)]):
        await body(i)

    async def param2(i: int, customer: Annotated[object, Debounce(w)] = 0):
        await body(i)

    async def whole(i: int, customer: object, debounce: Debounce = Debounce(w)):
        await body(i)

    async def scoped(i: int, customer: Annotated[object, Debounce(w, scope="elsewhere")]):
        await body(i)

    lab.tasks = [param, param2, whole, scoped]
    return {f.__name__: f for f in lab.tasks}


async def submit_all(case, lab, d, fns, base, at):
    sim = lab.sim

    async def one(i, t):
        await lab.until(base + t["at"])
        args, kw = spread(fns[t["style"]], t["how"], i=i, customer=t["customer"])
        await d.add(fns[t["style"]], key=K(case, i))(*args, **kw)
        at[i] = sim.now()

    await asyncio.gather(*(one(i, t) for i, t in enumerate(case["tasks"])))


def run(case, seen: Seen) -> None:
    slack, settle = SLACK[case["lat"]], case["settle"]

    async def main(sim):
        lab = Lab(sim)
        fns = scenario(case, lab)
        ws = [lab.start_worker(f"w{i}", scheduling_resolution=S(0.1), minimum_check_interval=S(0.1)) for i in range(case["workers"])]
        await asyncio.sleep(2 + slack)
        at: dict[int, float] = {}
        async with lab.docket() as d:
            await submit_all(case, lab, d, fns, sim.now(), at)
            ok = await lab.quiesce(lambda: lab.backlog() == (0, 0), limit=20 * settle + 60)
            need(ok, f"left over: {lab.backlog()}", "leftover")
            await asyncio.sleep(1 + 2 * slack)
            started: dict[int, float] = {}
            for e in lab.of("start"):
                need(e["i"] not in started, f"task {e['i']} ran twice", "twice")
                started[e["i"]] = e["t"]
            tol = 2 * slack + 0.25
            for s in sorted({scope(t) for t in case["tasks"]}):
                mine = sorted((at[i], i) for i, t in enumerate(case["tasks"]) if scope(t) == s)
                fired = sorted((started[i], i) for _, i in mine if i in started)
                for x, i in fired:  # quiet before it starts, whatever happened (save one too late to be noticed)
                    before = [a for a, j in mine if a < x - tol and j != i or j == i]
                    need(x >= max(before) + settle - slack - 0.002, f"task {i} of {s!r} started {x - max(before):.3f} s after the "
                         f"last submission, settle time {settle}", "unsettled")
                # the bursts: separated by more than the settle time
                bursts: list[list] = []
                unclear = False
                for a, i in mine:
                    gap = a - bursts[-1][-1][0] if bursts else None
                    if gap is None or gap > settle + tol:
                        bursts.append([(a, i)])
                    else:
                        unclear |= gap >= settle - tol
                        bursts[-1].append((a, i))
                if unclear:
                    seen.hit("edge")
                    continue
                need(len(fired) == len(bursts), f"{s!r}: {len(bursts)} bursts, {len(fired)} runs; submitted "
                     f"{[round(a, 2) for a, _ in mine]}, started {[round(a, 2) for a, _ in fired]}", "runs")
                for b, (x, i) in zip(bursts, fired):
                    need(i in [j for _, j in b], f"task {i} of {s!r} ran for another burst", "other-burst")
                    need(x <= b[-1][0] + settle + tol + slack, f"{s!r}: ran {x - b[-1][0]:.3f} s after the last submission, settle time {settle}", "late")
                    seen.hit("burst", len(b) > 1)
                    seen.nontrivial |= len(b) > 1
            for i in range(len(case["tasks"])):
                want = "completed" if i in started else "cancelled"
                need(lab.stored_state(K(case, i)) == want, f"task {i} is recorded as {lab.stored_state(K(case, i))}, not {want}", "state")
        await close_all(*ws)

    simulate(case, main)


def run_crashes(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)
        fns = scenario(case, lab)
        ws = [lab.start_worker(f"w{i}", scheduling_resolution=S(0.1), minimum_check_interval=S(0.1), redelivery_timeout=S(case["redelivery"]), restart_after=0.5)
              for i in range(case["workers"])]
        await asyncio.sleep(2)
        base = sim.now()
        at: dict[int, float] = {}

        async def killer(k):
            await lab.until(base + k["at"])
            ws[k["worker"]].node.kill()
            seen.hit("killed")

        killers = [asyncio.ensure_future(killer(k)) for k in case["kills"]]
        async with lab.docket() as d:
            await submit_all(case, lab, d, fns, base, at)
            await asyncio.gather(*killers)
            ok = await lab.quiesce(lambda: lab.backlog() == (0, 0), limit=30 * case["settle"] + 120)
            need(ok, f"left over: {lab.backlog()}", "leftover")
            await asyncio.sleep(1)
            for i, t in enumerate(case["tasks"]):
                # its own run or one of the same scope that began after it was submitted
                runs = [e for e in lab.of("end") if scope(case["tasks"][e["i"]]) == scope(t)]
                need(any(e["t"] >= at[i] for e in runs), f"task {i} of {scope(t)!r} was submitted at {at[i]:.2f}; nothing ran "
                     f"afterwards (runs ended {[round(e['t'], 2) for e in runs]})", "lost")
            seen.nontrivial = True
        await close_all(*ws)

    simulate(case, main)


PARTS = [
    Part("bursts", cases, run, quick=400, thorough=30_000, rule="a burst had two submissions or more"),
    Part("crashes", lambda tier: cases(tier, True), run_crashes, quick=250, thorough=15_000, rule="a worker was killed"),
]
