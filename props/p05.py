"""P05: redelivered or stale copies of a displaced task never start, nor touch its successor's record."""
from __future__ import annotations

from hypothesis import strategies as st

from docket import Retry
from vlib.engine import Part, Seen
from vlib.gens import seeds, times, worn
from vlib.lab import *


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["lan", "lan", "wan", "spiky"])),
        "worn": draw(worn),
        "redelivery": draw(st.sampled_from([2, 4])),
        "workers": draw(st.lists(st.sampled_from([1, 3, 10]), min_size=1, max_size=2)),
        "keys": draw(st.lists(st.fixed_dictionaries({
            "first": st.fixed_dictionaries({"dur": st.sampled_from([0.5, 3, 10]), "fails": st.sampled_from([0, 1, 2]),
                                            "delay": st.sampled_from([0, 0, 1])}),
            "how": st.sampled_from(["replace", "replace", "cancel", "cancel+add"]),
            "at": times(8, 0.05),
            "second": st.fixed_dictionaries({"dur": st.sampled_from([0, 1, 5]), "fails": st.sampled_from([0, 0, 1]),
                                             "delay": st.sampled_from([0, 0, 2, 6])}),
        }), min_size=1, max_size=4)),
        "kills": draw(st.lists(st.fixed_dictionaries({"worker": st.integers(0, 1), "at": times(9, 0.05)}),
                               min_size=1, max_size=4)),
        "faults": draw(st.lists(st.fixed_dictionaries({
            "worker": st.integers(0, 1), "cmd": st.sampled_from(["evalsha", "xreadgroup", "hgetall", "xautoclaim"]),
            "nth": st.integers(1, 20), "kind": st.sampled_from(["kill_before", "kill_after"])}), max_size=2)),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)

        async def work(token: str, dur: float, fails: int, retry: Retry = Retry(attempts=4, delay=S(0.5))):
            lab.rec("start", token=token, attempt=retry.attempt)
            try:
                await asyncio.sleep(dur)
            except asyncio.CancelledError:
                lab.rec("interrupted", token=token)
                raise
            if retry.attempt <= fails:
                lab.rec("fail", token=token)
                raise ValueError("scripted")
            lab.rec("end", token=token)
            return token

        lab.tasks = [work]
        await lab.wear([K(case, i) for i in range(len(case["keys"]))], case["worn"])
        base = sim.now()
        ws = []
        for i, c in enumerate(case["workers"]):
            node = sim.node(f"w{i}")
            node.faults = [dict(f) for f in case["faults"] if f["worker"] == i]
            ws.append(lab.start_worker(f"w{i}", restart_after=1.0, concurrency=c,
                                       redelivery_timeout=S(case["redelivery"]), reconnection_delay=S(1)))

        async def killer(k):
            await lab.until(base + k["at"])
            ws[k["worker"] % len(ws)].node.kill()

        killers = [asyncio.ensure_future(killer(k)) for k in case["kills"]]
        displaced = {}
        async with lab.docket() as d:
            async def one(i, k):
                f, g = k["first"], k["second"]
                await d.add(work, when=utcnow() + S(f["delay"]), key=K(case, i))(f"old{i}", f["dur"], f["fails"])
                await lab.until(base + k["at"])
                s = sim.now()
                new = None
                if k["how"] == "replace":
                    new = await d.replace(work, utcnow() + S(g["delay"]), K(case, i))(f"new{i}", g["dur"], g["fails"])
                else:
                    await d.cancel(K(case, i))
                displaced[i] = (s, sim.now())
                if k["how"] == "cancel+add":
                    await asyncio.sleep(slack + 0.5)
                    new = await d.add(work, when=utcnow() + S(g["delay"]), key=K(case, i))(f"new{i}", g["dur"], g["fails"])
                    need(new.disposition.value == "scheduled", f"k{i} was refused after its cancellation", "refused")
                return new

            news = await asyncio.gather(*(one(i, k) for i, k in enumerate(case["keys"])))
            await asyncio.gather(*killers)

            def settled():
                return lab.backlog() == (0, 0) and all(
                    lab.of("end", token=f"new{i}") for i, n in enumerate(news) if n is not None)

            ok = await lab.quiesce(settled, limit=150)
            await asyncio.sleep(case["redelivery"] + 2 * slack + 1)
            for i, k in enumerate(case["keys"]):
                s, e = displaced[i]
                for ev in lab.of("start", token=f"old{i}"):
                    need(ev["t"] <= e + slack, f"k{i}: a copy of the displaced submission started at t={ev['t']:.3f} "
                         f"(attempt {ev['attempt']}), after the {k['how']} returned at t={e:.3f}", "stale-start")
                ran = lab.of("start", token=f"old{i}")
                if ran and not [x for x in lab.of("end", token=f"old{i}") if x["t"] < s]:
                    seen.hit("displaced-in-flight")
                    seen.nontrivial = True
                if news[i] is not None:
                    need(lab.of("end", token=f"new{i}"), f"k{i}: the successor never ran to its end", "lost")
                    need(lab.stored_state(K(case, i)) == "completed",
                         f"k{i}: recorded state {lab.stored_state(K(case, i))} though the successor completed", "state")
                    ex = await d.get_execution(K(case, i))
                    got = await ex.get_result(timeout=S(5))
                    need(got == f"new{i}", f"k{i}: the recorded result is {got!r}, not the successor's", "result")
                elif not [x for x in lab.of("end", token=f"old{i}")]:
                    need(lab.stored_state(K(case, i)) == "cancelled",
                         f"k{i}: cancelled, but the recorded state is {lab.stored_state(K(case, i))}", "state")
            need(ok, f"work left over {lab.backlog()}", "leftover")
            if any(w.deaths for w in ws):
                seen.hit("crashed")
        await close_all(*ws)

    simulate(case, main)


PARTS = [Part("displaced", cases, run, quick=900, thorough=50_000, rule="the displaced task had started")]
