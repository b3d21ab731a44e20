"""P17: a rate limit is never exceeded in any window, and delays or drops no more than it must."""
from typing import Annotated

from hypothesis import strategies as st

from docket import ConcurrencyLimit, RateLimit
from vlib.engine import Part, Seen
from vlib.gens import seeds, times, units
from vlib.lab import *

STYLES = ["param", "param", "param2", "whole", "scoped", "blocked"]


@st.composite
def cases(draw, tier):
    per = draw(st.sampled_from([0.5, 1, 3, 8]))
    horizon = per * draw(st.sampled_from([0.2, 1.5, 4]))
    styles = draw(st.sampled_from([STYLES, ["param"], ["whole"], ["whole", "blocked"], ["param", "param2"]]))
    return {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(st.sampled_from(["zero", "lan", "lan", "wan"])), "per": per,
        "limit": draw(st.sampled_from([1, 1, 2, 3, 5])), "drop": draw(st.booleans()),
        "workers": draw(st.integers(1, 3)),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": st.one_of(times(horizon, 0.05), st.just(0)), "customer": st.sampled_from([0, 0, 1, "x"]),
            "style": st.sampled_from(styles), "how": st.sampled_from(WRITTEN), "dur": st.sampled_from([0, 0, 0.4, per * 1.2]), "fails": st.booleans(),
            "again": st.sampled_from([None, None, None, 0, 1]),  # tasks of one key, one after the other
        }), min_size=2, max_size=18 if tier == "thorough" else 10)),
    }


def scope(t) -> str:
    return {"param": f"d:customer:{t['customer']}", "param2": f"d:customer:{t['customer']}", "whole": "d:whole",
            "scoped": f"elsewhere:customer:{t['customer']}", "blocked": "shared:blocked"}[t["style"]]


def run(case, seen: Seen) -> None:
    slack, per, limit, drop = SLACK[case["lat"]], case["per"], case["limit"], case["drop"]

    async def main(sim):
        lab = Lab(sim)
        kw = {"per": S(per), "drop": drop}

        async def body(i):
            lab.rec("start", i=i)
            if i < len(case["tasks"]):
                await asyncio.sleep(case["tasks"][i]["dur"])
                if case["tasks"][i]["fails"]:
                    raise ValueError("scripted")

        async def param(i: int, customer: Annotated[object, RateLimit(limit, **kw)] = 0):
            await body(i)

        async def param2(customer: Annotated[object, RateLimit(limit, **kw)], i: int):
            await body(i)

        async def whole(i: int, customer: object, rate: RateLimit = RateLimit(limit, **kw)):
            await body(i)

        async def scoped(i: int, customer: Annotated[object, RateLimit(limit, scope="elsewhere", **kw)]):
            await body(i)

        # passes the rate limit, but is then often held back by something else
        async def blocked(i: int, customer: Annotated[object, ConcurrencyLimit(1)],
                          rate: RateLimit = RateLimit(limit, **kw)):
            await body(i)

        lab.tasks = [param, param2, whole, scoped, blocked]
        fns = {f.__name__: f for f in lab.tasks}
        ws = [lab.start_worker(f"w{i}", scheduling_resolution=S(0.1), minimum_check_interval=S(0.1)) for i in range(case["workers"])]
        await asyncio.sleep(2 + slack)
        base = sim.now()
        at: dict[int, float] = {}
        keys = [K(case, i if t["again"] is None else f"again{t['again']}") for i, t in enumerate(case["tasks"])]
        async with lab.docket() as d:
            async def submit(i, t):
                await lab.until(base + t["at"])
                args, kws = spread(fns[t["style"]], t["how"], i=i, customer=t["customer"])
                ex = await d.add(fns[t["style"]], key=keys[i])(*args, **kws)
                if t["again"] is None or ex.disposition.value == "scheduled":
                    at[i] = sim.now()

            await asyncio.gather(*(submit(i, t) for i, t in enumerate(case["tasks"])))
            n = len(case["tasks"])
            tasks = {i: t for i, t in enumerate(case["tasks"]) if i in at}
            ok = await lab.quiesce(lambda: lab.backlog() == (0, 0),
                                   limit=60 + n * (per + 1.2 * per + 8 * slack + 1))
            need(ok, f"left over: {lab.backlog()}", "leftover")
            started: dict[int, float] = {}
            for e in lab.of("start"):
                need(e["i"] not in started, f"task {e['i']} ran twice", "twice")
                started[e["i"]] = e["t"]
            tol = slack + 0.005
            for s in sorted({scope(t) for t in tasks.values()}):
                mine = [i for i, t in tasks.items() if scope(t) == s]
                starts = sorted(started[i] for i in mine if i in started)
                for a, b in zip(starts, starts[limit:]):
                    need(b - a >= per - tol, f"{limit + 1} tasks of {s!r} started within {b - a:.3f} s, limit {limit}/{per} s: "
                         f"{[round(x, 3) for x in starts]}", "exceeded")
                waited = False
                if s != "shared:blocked":
                    if drop:
                        for i in mine:
                            if i not in started:
                                waited = True
                                recent = [x for x in starts if at[i] - per - tol - slack <= x <= at[i] + 2 * slack + 0.1]
                                need(len(recent) >= limit, f"task {i} of {s!r} at {at[i]:.2f} was dropped, with {len(recent)} starts "
                                     f"in its window, limit {limit}/{per} s", "dropped")
                                seen.hit("dropped")
                    else:
                        # each start comes as soon as it may: against the greedy schedule
                        order = sorted(at[i] for i in mine)
                        greedy: list[float] = []
                        step = per + 3 * slack + 0.3
                        for k, a in enumerate(order):
                            greedy.append(max(a, greedy[k - limit] + step if k >= limit else a))
                        for x, g in zip(starts, greedy):
                            need(x <= g + 3 * slack + 0.3, f"{s!r}: a task started at {x:.2f} that could at {g:.2f}: submitted "
                                 f"{[round(x, 2) for x in order]}, started {[round(x, 2) for x in starts]}", "late")
                        waited = len(mine) > limit and any(x > a + per / 2 for x, a in zip(starts, order))
                        seen.hit("delayed", waited)
                seen.nontrivial |= waited
            for i, t in tasks.items():
                state = lab.stored_state(keys[i])
                need(drop or i in started, f"task {i} of {scope(t)!r} never ran: {state}", "lost")
                if keys.count(keys[i]) > 1:
                    seen.hit("key-reused")
                    continue
                want = ("failed" if t["fails"] else "completed") if i in started else "cancelled"
                need(state == want, f"task {i} is recorded as {state}, not {want}", "state")
        await close_all(*ws)

    simulate(case, main)


@st.composite
def back_cases(draw, tier):
    limit = draw(st.integers(2, 6))
    n = draw(st.integers(2, limit))
    return {"seed": draw(seeds), "unit": draw(units), "lat": draw(st.sampled_from(["zero", "lan", "lan"])), "limit": limit,
            "drop": draw(st.booleans()), "workers": draw(st.integers(1, 3)), "how": draw(st.sampled_from(["param", "whole"])),
            "tasks": [{"at": draw(times(1, 0.05)), "dur": draw(st.sampled_from([0, 0.1, 0.6, 2])),
                       "customer": draw(st.sampled_from([0, 0, 0, 1]))} for _ in range(n)]}


def run_back(case, seen: Seen) -> None:
    """A task that takes a turn but is then held back by something else gives the turn back."""
    per, limit = 200.0, case["limit"]

    async def main(sim):
        lab = Lab(sim)
        kw = {"per": S(per), "drop": case["drop"]}

        async def body(i):
            lab.rec("start", i=i)
            if i < len(case["tasks"]):
                await asyncio.sleep(case["tasks"][i]["dur"])

        async def whole(i: int, customer: Annotated[object, ConcurrencyLimit(1)], group: int,
                        rate: RateLimit = RateLimit(limit, **kw)):
            await body(i)

        async def param(i: int, group: Annotated[int, RateLimit(limit, **kw)], customer: Annotated[object, ConcurrencyLimit(1)]):
            await body(i)

        lab.tasks = [whole, param]
        fn = {"whole": whole, "param": param}[case["how"]]
        ws = [lab.start_worker(f"w{i}", scheduling_resolution=S(0.1), minimum_check_interval=S(0.1))
              for i in range(case["workers"])]
        await asyncio.sleep(2)
        base = sim.now()
        async with lab.docket() as d:
            async def submit(i, t):
                await lab.until(base + t["at"])
                await d.add(fn, key=K(case, i))(i=i, customer=t["customer"], group=0)

            await asyncio.gather(*(submit(i, t) for i, t in enumerate(case["tasks"])))
            n = len(case["tasks"])
            ran = lambda: len({e["i"] for e in lab.of("start")})
            await lab.quiesce(lambda: ran() == n and lab.backlog() == (0, 0), limit=40)
            need(ran() == n, f"{ran()} of {n} tasks could start, limit {limit} in {per} s", "kept")
            t0 = min(e["t"] for e in lab.of("start"))
            for k in range(limit - n + 1):
                await d.add(fn, key=f"extra{k}")(i=1000 + k, customer=f"extra{k}", group=0)
                await asyncio.sleep(0.6)
            got = ran() - n
            need(got == limit - n, f"after {n} starts, {got} more could start within {sim.now() - t0:.1f} s, limit {limit} in {per} s",
                 "kept" if got < limit - n else "exceeded")
            customers = [t["customer"] for t in case["tasks"]]
            seen.nontrivial = len(customers) > len(set(customers))
        await close_all(*ws)

    simulate(case, main)


PARTS = [
    Part("given-back", back_cases, run_back, quick=250, thorough=10_000, rule="tasks shared a concurrency limit"),
    Part("limits", cases, run, quick=700, thorough=40_000, rule="a task was delayed or dropped by its limit"),
]
