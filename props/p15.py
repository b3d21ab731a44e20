"""P15: a cooldown lets the first task through and drops those that come within its window."""
from typing import Annotated

from hypothesis import strategies as st

from docket import Cooldown, Retry
from vlib.engine import Part, Seen
from vlib.gens import seeds, times, units
from vlib.lab import *

STYLES = ["param", "param", "param2", "whole", "scoped", "double", "retried", "retried"]


@st.composite
def cases(draw, tier):
    window = draw(st.sampled_from([0.3, 1, 2.5, 10]))
    horizon = window * draw(st.sampled_from([1.5, 4]))
    return {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(st.sampled_from(["zero", "lan", "lan", "wan"])), "window": window,
        "workers": draw(st.integers(1, 3)), "again": draw(st.sampled_from([0.3, 1.2, 2])),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": st.one_of(times(horizon, 0.05), st.sampled_from([0, 0, window * 0.9, window, window * 1.1, window * 2])),
            "delay": st.sampled_from([0, 0, 0, 0.7]), "customer": st.sampled_from([0, 0, 1, "x"]), "region": st.integers(0, 1),
            "style": st.sampled_from(STYLES), "how": st.sampled_from(WRITTEN), "dur": st.sampled_from([0, 0, 0.4, window * 1.2]), "fails": st.booleans(),
        }), min_size=2, max_size=16 if tier == "thorough" else 10)),
    }


def scopes(t) -> list[str]:
    return {"param": [f"d:customer:{t['customer']}"], "param2": [f"d:customer:{t['customer']}"],
            "retried": [f"d:customer:{t['customer']}"], "whole": ["d:whole"],
            "scoped": [f"elsewhere:customer:{t['customer']}"],
            "double": [f"d:customer:{t['customer']}", f"d:region:{t['region']}"]}[t["style"]]


def run(case, seen: Seen) -> None:
    slack, w = SLACK[case["lat"]], S(case["window"])

    async def main(sim):
        lab = Lab(sim)

        async def body(i, attempt=1):
            t = case["tasks"][i]
            lab.rec("start", i=i, attempt=attempt)
            await asyncio.sleep(t["dur"])
            lab.rec("end", i=i, attempt=attempt)
            if t["fails"]:
                raise ValueError("scripted")

        async def param(i: int, customer: Annotated[object, Cooldown(w)] = 0, region: int = 0):
            await body(i)

        async def param2(i: int, region: int = 0, customer: Annotated[object, Cooldown(w)] = 0):
            await body(i)

        async def whole(i: int, customer: object, region: int, cooldown: Cooldown = Cooldown(w)):
            await body(i)

        async def scoped(i: int, customer: Annotated[object, Cooldown(w, scope="elsewhere")], region: int):
            await body(i)

        async def double(i: int, customer: Annotated[object, Cooldown(w)], region: Annotated[int, Cooldown(w)]):
            await body(i)

        async def retried(i: int, customer: Annotated[object, Cooldown(w)] = 0, region: int = 0,
                          retry: Retry = Retry(attempts=2, delay=w * case["again"])):
            await body(i, retry.attempt)

        lab.tasks = [param, param2, whole, scoped, double, retried]
        fns = {f.__name__: f for f in lab.tasks}
        ws = [lab.start_worker(f"w{i}", scheduling_resolution=S(0.1)) for i in range(case["workers"])]
        await asyncio.sleep(2 + slack)
        base = sim.now()
        due = {}
        async with lab.docket() as d:
            async def submit(i, t):
                await lab.until(base + t["at"])
                due[i] = sim.now() + t["delay"]
                args, kw = spread(fns[t["style"]], t["how"], i=i, customer=t["customer"], region=t["region"])
                await d.add(fns[t["style"]], when=utcnow() + S(t["delay"]) if t["delay"] else None, key=K(case, i))(*args, **kw)

            await asyncio.gather(*(submit(i, t) for i, t in enumerate(case["tasks"])))
            ok = await lab.quiesce(lambda: lab.backlog() == (0, 0), limit=max(due.values()) - sim.now() + 60 + 30 * slack)
            need(ok, f"left over: {lab.backlog()}", "leftover")
            await asyncio.sleep(2 * slack + 1)
            # every attempt is an arrival of its own
            started, arrivals = {}, {(i, 1): at for i, at in due.items()}
            for e in lab.of("start"):
                k = (e["i"], e["attempt"])
                need(k not in started, f"task {e['i']}, attempt {e['attempt']}, ran twice", "twice")
                started[k] = e["t"]
                need(e["attempt"] == 1 or case["tasks"][e["i"]]["style"] == "retried", f"task {e['i']} was retried", "retried")
            for e in lab.of("end"):
                t = case["tasks"][e["i"]]
                if t["fails"] and t["style"] == "retried" and e["attempt"] == 1:
                    arrivals[e["i"], 2] = e["t"] + case["window"] * case["again"]
            need(set(started) <= set(arrivals), f"attempts {sorted(set(started) - set(arrivals))} out of nowhere", "retried")
            tol = 2 * slack + 0.01
            for s in sorted({s for t in case["tasks"] for s in scopes(t)}):
                mine = sorted((at, k) for k, at in started.items() if s in scopes(case["tasks"][k[0]]))
                for (a, i), (b, j) in zip(mine, mine[1:]):
                    need(b - a >= case["window"] - tol, f"tasks {i} and {j} of {s!r} started {b - a:.3f} s apart, window {case['window']}", "window")
            for k in sorted(arrivals):
                i, attempt = k
                t = case["tasks"][i]
                state = lab.stored_state(K(case, i))
                if k in started:
                    need((i, attempt + 1) in arrivals or state == ("failed" if t["fails"] else "completed"),
                         f"task {i} ran, but is recorded as {state}", "state")
                    seen.hit("second-attempt", attempt > 1)
                    continue
                seen.hit("dropped")
                seen.nontrivial = True
                need(state == "cancelled", f"task {i} didn't run, and is recorded as {state}", "state")
                # some task that holds back this one: same scope, admitted (or, with two
                # cooldowns on one task, possibly dropped by the other one) shortly before
                lo, hi = arrivals[k] - case["window"] - tol, arrivals[k] + tol + 0.15 + slack + (0.25 if attempt > 1 else 0)
                blockers = [j for j in arrivals if j != k and set(scopes(case["tasks"][j[0]])) & set(scopes(t))
                            and (lo <= started[j] <= hi if j in started else case["tasks"][j[0]]["style"] == "double" and lo <= arrivals[j] <= hi)]
                need(blockers, f"task {i} of {scopes(t)} due at {arrivals[k]:.2f} was dropped; started: { {j: round(x, 2) for j, x in started.items()} }", "dropped")
        await close_all(*ws)

    simulate(case, main)


PARTS = [Part("windows", cases, run, quick=600, thorough=40_000, rule="a task was dropped")]
