"""P24: clear() removes exactly what is pending, and nothing else, whatever happens at the same time."""
from hypothesis import strategies as st

from docket import ConcurrencyLimit, Retry
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])),
        "workers": draw(st.lists(st.sampled_from([1, 1, 3, 10]), min_size=0, max_size=2)),
        "ttl": (ttl := draw(st.sampled_from([900, 900, 0]))),  # 0 only without displaced runs, see P03's known finding
        "clears": sorted(draw(st.lists(times(6, 0.01), min_size=1, max_size=2))),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": st.one_of(times(6, 0.25), times(6, 0.01)), "delay": st.sampled_from([0, 0, 0.4, 1, 3, 8]),
            "dur": st.sampled_from([0, 0.1, 1, 4]), "fails": st.sampled_from([0, 0, 0, 1, 2]),
            "how": st.sampled_from(["add", "add", "replace" if ttl else "add"]), "key": st.integers(0, 5),
        }), min_size=1, max_size=8)),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]))

        async def work(n: int, retry: Retry = Retry(attempts=3)):
            t = case["tasks"][n] if n < 100 else {"dur": 0, "fails": 0}
            retry.delay = S(1)
            lab.rec("start", n=n, attempt=retry.attempt)
            end = "interrupted"
            try:
                await asyncio.sleep(t["dur"])
                end = "end"
            finally:
                lab.rec(end, n=n, attempt=retry.attempt)
            if retry.attempt <= t["fails"]:
                raise ValueError("scripted")

        lab.tasks = [work]
        ws = [lab.start_worker(f"w{i}", concurrency=c, minimum_check_interval=S(0.1), scheduling_resolution=S(0.1)) for i, c in enumerate(case["workers"])]
        await asyncio.sleep(1)
        subs: dict[int, dict] = {}
        clears = []
        lock: dict[int, asyncio.Lock] = {}

        async def submit(n, t):
            await lab.until(2 + t["at"])
            async with lab.docket() as d:
                f = d.add if t["how"] == "add" else d.replace
                t0 = sim.now()
                ex = await f(work, when=utcnow() + S(t["delay"]), key=K(case, t["key"]))(n)
                subs[n] = {"n": n, "from": t0, "to": sim.now(), "accepted": ex.disposition.value == "scheduled", **t}

        async def clear(at):
            await lab.until(2 + at)
            async with sim_docket() as d:
                t0 = sim.now()
                count = await d.clear()
                clears.append({"from": t0, "to": sim.now(), "count": count})

        def sim_docket():
            return lab.docket()

        jobs = [sim.node(f"c{n}").spawn(submit(n, t)) for n, t in enumerate(case["tasks"])]
        jobs += [sim.node(f"x{n}").spawn(clear(at)) for n, at in enumerate(case["clears"])]
        await asyncio.gather(*jobs)
        if not ws:
            ws = [lab.start_worker("late")]
        await asyncio.sleep(40)

        # Every key is free again, and what is submitted to it now runs
        async with lab.docket() as d:
            for key in range(6):
                ex = await d.add(work, key=K(case, key))(100 + key)
                need(ex.disposition.value == "scheduled", f"key {key} is still taken: {ex.disposition}", "key")
        await asyncio.sleep(15)
        await close_all(*ws)
        starts, ends = lab.of("start"), lab.of("end")
        for key in range(6):
            got = [e for e in starts if e["n"] == 100 + key]
            need(len(got) == 1, f"the task submitted to key {key} at last ran {len(got)} times", "after")
        need(not lab.of("interrupted"), f"interrupted: {lab.of('interrupted')}", "interrupted")

        for n, s in subs.items():
            mine = [e for e in starts if e["n"] == n]
            over = [e for e in ends if e["n"] == n]
            what = f"task {n} ({s['how']} of key {s['key']} accepted during [{s['from']:.3f}, {s['to']:.3f}])"
            need(len(mine) == len(over), f"{what} started {len(mine)} times and ended {len(over)} times", "ends")
            need([e["attempt"] for e in mine] == list(range(1, len(mine) + 1)), f"{what}: attempts {[e['attempt'] for e in mine]}", "attempts")
            if not s["accepted"]:
                need(not mine, f"{what} was refused, and ran", "refused")
                continue
            # replaced by another submission of its key at some time?
            others = [o for m, o in subs.items() if m != n and o["key"] == s["key"] and o["how"] == "replace" and o["accepted"] and o["to"] >= s["from"]]
            maybe = False
            for c in clears:
                for e in mine:
                    if e["t"] > c["to"] + 2 * slack:
                        before = [x for x in over if x["attempt"] == e["attempt"] - 1]
                        since = before[0]["t"] + 3 * slack if before else s["to"]
                        if since < c["from"]:
                            need(False, f"{what} had been pending since t={since:.3f}, was cleared by t={c['to']:.3f}, "
                                 f"and started attempt {e['attempt']} at t={e['t']:.3f}", "ran")
                # could it have been pending at that time?
                if s["from"] <= c["to"]:
                    busy = any(e["t"] <= c["from"] - 3 * slack and x["t"] >= c["to"] for e, x in zip(mine, over))
                    gone = len(mine) == s["fails"] + 1 and over[-1]["t"] <= c["from"]
                    if not busy and not gone:
                        maybe = True
                    if busy:
                        seen.hit("busy")
            if not maybe and not others:
                need(len(mine) == s["fails"] + 1, f"{what} was not pending at any clear ({clears}), and ran {len(mine)} times", "lost")
            seen.hit("removed" if not mine else "ran")
        for c in clears:
            low = high = 0
            for n, s in subs.items():
                if not s["accepted"] or s["from"] > c["to"]:
                    continue
                mine = [e for e in starts if e["n"] == n]
                first = mine[0]["t"] if mine else None
                replaced = any(o["key"] == s["key"] and m != n and o["accepted"] and o["to"] >= s["from"] for m, o in subs.items())
                earlier = any(s["from"] <= x["to"] and x["from"] <= c["to"] for x in clears if x is not c)
                pending = s["to"] < c["from"] and (first is None or first > c["to"] + slack)
                if pending and not replaced and not earlier:
                    low += 1
                running = any(e["t"] <= c["from"] - 3 * slack and x["t"] >= c["to"] for e, x in zip(mine, [e for e in ends if e["n"] == n]))
                over = [e for e in ends if e["n"] == n]
                finished = len(over) == s["fails"] + 1 and over[-1]["t"] + 3 * slack < c["from"]
                if not running and not finished:
                    high += 1
            need(low <= c["count"] <= high, f"clear() at t={c['from']:.3f} says it removed {c['count']}, there were {low} to {high}", "count")
            if low:
                seen.nontrivial = True

    simulate(case, main)


PARTS = [Part("clear", cases, run, quick=300, thorough=20_000, rule="something certainly pending was cleared")]
