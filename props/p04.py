"""P04: cancel(): a cancelled task never starts; a running one is interrupted; the key is free again."""
from __future__ import annotations

from hypothesis import strategies as st

from docket import ExecutionCancelled
from props.p03 import check_latest_wins
from vlib.engine import Part, Seen
from vlib.gens import profiles, seeds, worn
from vlib.hist import History, ops
from vlib.lab import *


@st.composite
def cases(draw, tier):
    clients = draw(st.integers(1, 3))
    kinds = draw(st.sampled_from([["add", "add", "replace", "cancel", "cancel"], ["add", "cancel"]]))
    return {
        "seed": draw(seeds), "lat": draw(profiles), "clients": clients, "worn": draw(worn),
        "rdelay": draw(st.sampled_from([1.0, 1.0, 0, 0.3])),
        "workers": draw(st.lists(st.sampled_from([1, 2, 10]), min_size=1, max_size=3)),
        "ttl": 900 if "replace" in kinds else draw(st.sampled_from([900, 5])),
        "ops": draw(ops(kinds, draw(st.sampled_from([1, 2])), 8, clients,
                        20 if tier == "thorough" else 10, durs=(0, 0.1, 0.5, 1.5, 4, 15))),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]))
        h = History(lab, case)
        ws = [lab.start_worker(f"w{i}", concurrency=c) for i, c in enumerate(case["workers"])]
        await asyncio.sleep(0.5 + slack)  # the workers' cancellation listeners are up
        await h.play(case["ops"], case["clients"])

        def idle():
            open_bodies = sum(1 for o in h.ops if o["op"] != "cancel"
                              and any(e == float("inf") for _, e in h.bodies(o["i"])))
            return lab.backlog() == (0, 0) and not open_bodies

        for _ in range(3):
            await lab.quiesce(idle, limit=200)
            await asyncio.sleep(2 * slack + 1)
        need(idle(), f"work left over: backlog {lab.backlog()}", "leftover")
        need(not lab.worker_ends, f"a worker ended by itself: {lab.worker_ends}", "worker-died")
        check_latest_wins(h, slack, seen)
        subs = [o for o in h.ops if o["op"] != "cancel" and o["result"] == "scheduled"]
        cancels = [o for o in h.ops if o["op"] == "cancel"]
        reaction = slack + 0.3
        for o in subs:
            later = [c for c in cancels if c["key"] == o["key"] and c["s"] >= o["e"]]
            for c in later:
                if any(p is not o and p["key"] == o["key"] and p["e"] >= o["s"] and p["s"] <= c["e"] for p in subs):
                    continue  # the cancellation may be about another submission
                for s, e in h.bodies(o["i"]):
                    if s < c["e"]:
                        need(e <= c["e"] + reaction, f"submission {o['i']} was running when cancelled at "
                             f"t={c['e']:.3f}, yet its body went on until t={e}", "not-interrupted")
                        if e > c["s"]:
                            seen.hit("interrupted")
            # nothing else touched this key around the submission: it must run
            disturb = [x for x in h.ops if x is not o and x["key"] == o["key"] and x["op"] != "add"
                       and x["e"] + reaction >= o["s"]]
            if not disturb:
                need(h.final(o["i"]) is not None, f"submission {o['i']} was never cancelled or replaced "
                     "but did not run to its end", "lost")
                if any(c["key"] == o["key"] for c in cancels):
                    seen.hit("rescheduled-after-cancel")
        for key in {o["key"] for o in h.ops}:
            mine = sorted((o for o in h.ops if o["key"] == key), key=lambda o: o["s"])
            last = mine[-1]
            if last["op"] == "cancel" and all(o["e"] + reaction < last["s"] for o in mine[:-1]):
                prior = [o for o in mine if o["op"] != "cancel" and o["result"] == "scheduled"]
                if not prior:
                    continue
                p = prior[-1]
                between = [c for c in mine if c["op"] == "cancel" and c["s"] > p["e"]]
                if len(between) > 1:
                    continue
                done = h.final(p["i"])
                if done is not None and done > last["s"] - slack:
                    continue  # finished while it was being cancelled
                expect = "cancelled" if done is None else "completed"
                if case["ttl"] == 900:
                    got = lab.stored_state(key)
                    need(got == expect, f"{key}: recorded state {got}, expected {expect}", "state")
                seen.hit("cancel-last")
            # refusals must be justified: a cancelled key can be scheduled again at once
        for o in h.ops:
            if o["op"] != "add" or o["result"] != "already_scheduled":
                continue
            why = []
            for a in subs:
                if a["key"] != o["key"] or a["s"] > o["e"]:
                    continue
                ends = [h.final(a["i"])] if h.final(a["i"]) is not None else []
                ends += [x["e"] for x in h.ops if x["key"] == a["key"] and x["op"] == "cancel" and x["s"] >= a["e"]]
                ends += [e for s, e in h.bodies(a["i"]) if e == float("inf")]
                if not ends or min(ends) + slack >= o["s"]:
                    why.append(a)
            need(why, f"add {o['i']} was refused at t={o['s']:.3f} though everything under {o['key']} "
                 "had been cancelled or had finished", "unjustified")
        seen.nontrivial = any(k.startswith("cancel-") or k == "interrupted" for k in seen.labels)
        await close_all(*ws)

    simulate(case, main)


# -- waiters of a cancelled task -------------------------------------------


@st.composite
def waiter_cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(profiles),
        "dur": draw(st.sampled_from([0.5, 3, 30])), "delay": draw(st.sampled_from([0, 0, 2, 30])),
        "cancel_at": draw(st.integers(0, 500).map(lambda i: i / 100)),
        "waiters": draw(st.lists(st.integers(0, 600).map(lambda i: i / 100), min_size=1, max_size=4)),
        "redelivery": draw(st.sampled_from([2, 300])),
    }


def run_waiters(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)

        async def work(dur: float):
            lab.rec("start")
            try:
                await asyncio.sleep(dur)
            except asyncio.CancelledError:
                lab.rec("interrupted")
                raise
            lab.rec("end")
            return "done"

        lab.tasks = [work]
        w = lab.start_worker("w0", redelivery_timeout=S(case["redelivery"]))
        await asyncio.sleep(0.5 + slack)
        outcomes = []
        async with lab.docket() as d:
            ex = await d.add(work, when=utcnow() + S(case["delay"]), key=K(case, ""))(case["dur"])
            t0 = sim.now()

            async def waiter(at):
                await lab.until(t0 + at)
                async with lab.docket() as d2:
                    e = await d2.get_execution(K(case, ""))
                    need(e is not None, "the execution record is gone", "record-gone")
                    try:
                        r = await e.get_result(timeout=S(60))
                        outcomes.append((sim.now(), "value", r))
                    except ExecutionCancelled:
                        outcomes.append((sim.now(), "cancelled", None))
                    except TimeoutError:
                        outcomes.append((sim.now(), "timeout", None))

            async def canceller():
                await lab.until(t0 + case["cancel_at"])
                c0 = sim.now()
                await d.cancel(K(case, ""))
                return c0, sim.now()

            jobs = [sim.node(f"r{i}").spawn(waiter(a)) for i, a in enumerate(case["waiters"])]
            c0, c1 = await canceller()
            for j in jobs:
                await j
            await asyncio.sleep(1 + slack)
            started, ended, hit = lab.of("start"), lab.of("end"), lab.of("interrupted")
            if ended:
                need(ended[0]["t"] <= c1 + slack + 0.3, "the task finished long after its cancellation", "not-interrupted")
            if not started or hit:
                for t, kind, r in outcomes:
                    need(kind == "cancelled", f"a waiter got {kind} {r!r} for a cancelled task", "waiter")
                need(lab.stored_state(K(case, "")) == "cancelled", f"state is {lab.stored_state(K(case, ''))}", "state")
                seen.hit("waiters", len(outcomes))
            else:
                for t, kind, r in outcomes:
                    need(kind in ("cancelled", "value") and r in (None, "done"), f"waiter got {kind} {r!r}", "waiter")
            seen.nontrivial = True
            seen.hit("running" if hit else "pending" if not started else "finished")
            need(lab.backlog() == (0, 0), f"left behind: {lab.backlog()}", "leftover")
        need(not lab.worker_ends, f"a worker ended by itself: {lab.worker_ends}", "worker-died")
        await close_all(w)

    simulate(case, main)


PARTS = [
    Part("cancels", cases, run, quick=1300, thorough=80_000, rule="a cancellation hit a pending or running task"),
    Part("waiters", waiter_cases, run_waiters, quick=700, thorough=30_000, rule="someone waited on the task"),
]
