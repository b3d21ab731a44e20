"""P03: replace(): the last schedule of a key wins, everything older never starts again."""
from __future__ import annotations

from hypothesis import strategies as st

from vlib.engine import Part, Seen
from vlib.gens import profiles, seeds, times, worn
from vlib.hist import History, ops
from vlib.lab import *


@st.composite
def cases(draw, tier):
    clients = draw(st.integers(1, 3))
    return {
        "seed": draw(seeds), "lat": draw(profiles), "clients": clients, "worn": draw(worn),
        "rdelay": draw(st.sampled_from([1.0, 1.0, 0, 0.3])),
        "workers": draw(st.lists(st.sampled_from([1, 2, 10]), min_size=1, max_size=3)),
        "ttl": 900,
        "ops": draw(ops(["add", "replace", "replace"], draw(st.sampled_from([1, 1, 2])), 8, clients,
                        20 if tier == "thorough" else 10)),
    }


def check_latest_wins(h: History, slack: float, seen: Seen, cancelled_ok: bool = False) -> None:
    """No submission starts once a later replace (or cancel) of its key has returned."""
    subs = [o for o in h.ops if o["op"] != "cancel" and o["result"] == "scheduled"]
    for o in subs:
        for r in h.ops:
            if r["key"] != o["key"] or r is o or r["op"] not in ("replace", "cancel") or r["e"] is None:
                continue
            if r["s"] < o["e"]:
                continue  # not certainly later than o
            for e in h.token(o["i"], "start"):
                need(e["t"] <= r["e"] + slack,
                     f"submission {o['i']} (accepted by t={o['e']:.3f}) started attempt {e['attempt']} at "
                     f"t={e['t']:.3f}, after the {r['op']} {r['i']} had returned at t={r['e']:.3f}", "stale-start")
            if any(s < r["s"] and e > r["e"] for s, e in h.bodies(o["i"])):
                seen.hit(f"{r['op']}-while-running")
            elif not h.starts(o["i"]):
                seen.hit(f"{r['op']}-before-start")
            elif h.bodies(o["i"])[-1][1] < r["s"] and h.final(o["i"]) is None:
                seen.hit(f"{r['op']}-between-attempts")


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]))
        h = History(lab, case)
        ws = [lab.start_worker(f"w{i}", concurrency=c) for i, c in enumerate(case["workers"])]
        await h.play(case["ops"], case["clients"])
        t_end = sim.now()

        def idle():
            open_bodies = sum(1 for o in h.ops if o["op"] != "cancel"
                              and any(e == float("inf") for _, e in h.bodies(o["i"])))
            return lab.backlog() == (0, 0) and not open_bodies

        for _ in range(3):
            await lab.quiesce(idle, limit=200)
            await asyncio.sleep(2 * slack + 1)
        need(idle(), f"work left over: backlog {lab.backlog()}", "leftover")
        for key in {o["key"] for o in h.ops}:
            mine = [o for o in h.ops if o["key"] == key]
            reps = [o for o in mine if o["op"] == "replace"]
            for r in reps:
                need(r["result"] == "scheduled", f"replace {r['i']} reported {r['result']}", "replace-refused")
            # a submission that no other one can have displaced must run to its end
            for o in mine:
                if o["result"] != "scheduled":
                    need(not h.starts(o["i"]), f"refused submission {o['i']} ran", "refused-ran")
                    continue
                displacing = [r for r in reps if r is not o and r["e"] > o["s"]]
                if not displacing:
                    need(h.final(o["i"]) is not None, f"submission {o['i']} for {key} was accepted at "
                         f"t={o['e']:.3f} and never displaced, but never finished", "lost")
                n = len(h.starts(o["i"]))
                need(n <= 1 + o["op_case"]["fails"], f"submission {o['i']} started {n} times", "times")
                if o["due"] is not None and h.starts(o["i"]):
                    need(h.starts(o["i"])[0] >= o["due"] - 0.002, f"submission {o['i']} started early", "early")
            last_done = [o for o in reps if not any(p["s"] > o["e"] for p in reps)]
            if last_done:
                need(any(h.final(o["i"]) is not None for o in last_done),
                     f"{key}: none of the last replacements {[o['i'] for o in last_done]} ran to its end", "lost")
                if len(mine) > len(last_done):
                    seen.nontrivial = True
            if case["ttl"] == 900:
                need(lab.stored_state(key) == "completed", f"{key}: recorded state is {lab.stored_state(key)} "
                     "after its last schedule completed", "state")
        check_latest_wins(h, slack, seen)
        need(not lab.worker_ends, f"a worker ended by itself: {lab.worker_ends}", "worker-died")
        await close_all(*ws)

    simulate(case, main)


# -- the worker that holds the old schedule goes away --------------------------


@st.composite
def stalled_cases(draw, tier):
    n = draw(st.integers(1, 2))
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])), "clients": 1,
        "worn": draw(st.sampled_from([0, 1, 7, 8, 8, 9, 98])), "ttl": 900, "rdelay": draw(st.sampled_from([1.0, 0])),
        "redelivery": draw(st.sampled_from([1.5, 3])), "workers": [draw(st.sampled_from([1, 2])) for _ in range(n)],
        "restart": draw(st.sampled_from([0.3, 2, 6])),
        "kills": draw(st.lists(st.fixed_dictionaries({"worker": st.integers(0, n - 1), "at": times(6, 0.05)}), min_size=1, max_size=3)),
        "faults": draw(st.lists(st.fixed_dictionaries({
            "worker": st.integers(0, n - 1), "cmd": st.sampled_from(["xreadgroup", "xreadgroup", "evalsha"]), "nth": st.integers(1, 8),
            "from": times(5, 0.5), "kind": st.sampled_from(["kill_after", "kill_before"])}), max_size=2)),
        "ops": draw(ops(["replace", "replace", "add"], draw(st.sampled_from([1, 1, 2])), 6, 1, 7, flavors=["plain"],
                        durs=(0, 0.5, 2, 5), delays=(0, 0, 0.5, 3, 5))),
    }


def run_stalled(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]))
        h = History(lab, case)
        ws = [lab.start_worker(f"w{i}", concurrency=c, redelivery_timeout=S(case["redelivery"]), restart_after=case["restart"])
              for i, c in enumerate(case["workers"])]
        await asyncio.sleep(2)
        base = sim.now()
        for i in range(len(ws)):
            sim.node(f"w{i}").faults = [{**f, "from": base + f["from"]} for f in case["faults"] if f["worker"] == i]

        async def kill(k):
            await lab.until(base + k["at"])
            ws[k["worker"]].node.kill()

        killers = [asyncio.ensure_future(kill(k)) for k in case["kills"]]
        await h.play(case["ops"], 1)
        for k in killers:
            await k
        keys = {o["key"] for o in h.ops}
        reps = {k: [o for o in h.ops if o["key"] == k and o["op"] == "replace"] for k in keys}
        last = {k: [o for o in reps[k] if not any(p["s"] > o["e"] for p in reps[k])] for k in keys if reps[k]}

        def idle():
            return lab.backlog() == (0, 0) and all(any(h.final(o["i"]) is not None for o in l) for l in last.values())

        await lab.quiesce(idle, limit=120)
        await asyncio.sleep(3 * slack + 2 * case["redelivery"])
        for k, l in last.items():
            need(any(h.final(o["i"]) is not None for o in l), f"{k}: none of the last replacements {[o['i'] for o in l]} ran to its end", "lost")
        need(lab.backlog() == (0, 0), f"left over: {lab.backlog()}", "leftover")
        check_latest_wins(h, slack, seen)
        for k, l in last.items():
            for o in l:
                if any(h.starts(p["i"]) and p["e"] < o["s"] for p in h.ops if p["key"] == k and p is not o):
                    seen.hit("displaced-after-start")
                    seen.nontrivial = True
        await close_all(*ws)

    simulate(case, main)


# -- records that are forgotten early -------------------------------------------


@st.composite
def forgotten_cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan"])), "ttl": draw(st.sampled_from([0, 0, 1, 2])),
        "runs": [{"at": draw(times(6, 0.1)), "dur": draw(st.sampled_from([0, 0.5, 3, 6])), "delay": draw(st.sampled_from([0, 0, 2, 5]))}
                 for _ in range(draw(st.integers(2, 4)))],
    }


def run_forgotten(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]
    runs = sorted(case["runs"], key=lambda r: r["at"])

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]))

        async def work(i: int):
            lab.rec("start", i=i)
            await asyncio.sleep(runs[i]["dur"])
            lab.rec("end", i=i)

        lab.tasks = [work]
        w = lab.start_worker("w0")
        await asyncio.sleep(1)
        calls = []
        async with lab.docket() as d:
            for i, r in enumerate(runs):
                await lab.until(1 + r["at"])
                s = sim.now()
                await d.replace(work, utcnow() + S(r["delay"]), K(case, 0))(i)
                calls.append((s, sim.now()))
            await asyncio.sleep(20)
        last = len(runs) - 1
        for i in range(len(runs)):
            need(len(lab.of("start", i=i)) <= 1, f"schedule {i} ran more than once", "twice")
        if not lab.of("start", i=last):
            # Known: its number was given again because the record of a later run had already expired
            # while an earlier one was still running, whose end then took the record for its own.
            old = [i for i in range(last) if lab.of("start", i=i) and lab.of("end", i=i)[0]["t"] + slack > calls[last][0]]
            done = [i for i in range(last) if lab.of("end", i=i) and lab.of("end", i=i)[0]["t"] + case["ttl"] < calls[last][1] + slack]
            renumbered = any(o < b for o in old for b in done)
            need(False, f"the last replacement never ran ({runs})", "renumbered" if renumbered else "lost")
        need(lab.backlog() == (0, 0), f"left over: {lab.backlog()}", "leftover")
        seen.nontrivial = len(lab.of("start")) > 1
        await close_all(w)

    simulate(case, main)


PARTS = [Part("stalled", stalled_cases, run_stalled, quick=500, thorough=20_000, rule="a replacement displaced something that had started"),
         Part("replaces", cases, run, quick=1600, thorough=80_000, rule="a replacement displaced or followed something"),
         Part("forgotten", forgotten_cases, run_forgotten, quick=200, thorough=5_000, rule="two schedules of a key ran with a short record lifetime")]
