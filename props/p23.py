"""P23: a worker's slots, its stopping, and its ways of running until there is nothing left to do."""
import contextlib

from hypothesis import strategies as st

from docket import CurrentDocket, Perpetual, Retry
from docket.dependencies import current_worker
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *


@st.composite
def cases(draw, tier):
    k = draw(st.integers(1, 3))
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])),
        "redelivery": draw(st.sampled_from([2, 3, 300])),
        # each worker has sessions: how it is run, when it is stopped (after its start), and how
        "workers": [{
            "at": draw(times(2, 0.1)), "concurrency": draw(st.sampled_from([1, 1, 2, 4])),
            "check": draw(st.sampled_from([0.05, 0.25])),
            "sessions": draw(st.lists(st.fixed_dictionaries({
                "how": st.sampled_from(["forever", "forever", "finish"]), "stop": st.sampled_from(["cancel", "exit"]),
                "after": times(5, 0.05), "pause": st.sampled_from([0, 0.5]),
            }), min_size=1, max_size=3)),
        } for _ in range(k)],
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": times(6, 0.05), "delay": st.sampled_from([0, 0, 0, 1.5, 6]),
            "dur": st.sampled_from([0, 0.1, 0.6, 2, 9]), "fails": st.sampled_from([0, 0, 0, 1, 2]),
            "spawns": st.sampled_from([0, 0, 0, 1, 2]),
        }), min_size=1, max_size=10)),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)

        async def leaf(i: int, n: int):
            me = current_worker.get().name
            lab.rec("start", i=(i, n), w=me, attempt=1)
            await asyncio.sleep(0.3)
            lab.rec("end", i=(i, n), w=me, attempt=1)

        async def work(i: int, d: Docket = CurrentDocket(), retry: Retry = Retry(attempts=3)):
            t = case["tasks"][i]
            me = current_worker.get().name
            retry.delay = S(0.7)
            lab.rec("start", i=i, w=me, attempt=retry.attempt)
            end = "interrupted"
            try:
                if retry.attempt == 1:
                    for n in range(t["spawns"]):
                        await d.add(leaf, key=K(case, f"{i}.{n}"))(i, n)
                        lab.rec("added", i=(i, n), w=me)
                await asyncio.sleep(t["dur"])
                end = "end"
            finally:
                lab.rec(end, i=i, w=me, attempt=retry.attempt)
            if retry.attempt <= t["fails"]:
                raise ValueError("scripted")
            return i

        lab.tasks = [work, leaf]
        total = {i: t["fails"] + 1 for i, t in enumerate(case["tasks"])}
        total |= {(i, n): 1 for i, t in enumerate(case["tasks"]) for n in range(t["spawns"])}
        sessions = []

        async def worker(k, spec):
            await lab.until(1 + spec["at"])
            async with lab.docket() as d:
                for n, s in enumerate(spec["sessions"]):
                    name = f"w{k}.{n}"
                    async with contextlib.AsyncExitStack() as stack:
                        w = await stack.enter_async_context(Worker(
                            d, name=name, concurrency=spec["concurrency"], minimum_check_interval=S(spec["check"]),
                            scheduling_resolution=S(0.1), redelivery_timeout=S(case["redelivery"])))
                        rec = {"name": name, "from": sim.now(), "finished": False, "spec": spec, "s": s}
                        sessions.append(rec)
                        job = asyncio.ensure_future(w.run_forever() if s["how"] == "forever" else w.run_until_finished())
                        await asyncio.wait({job}, timeout=s["after"])
                        rec["stop"] = sim.now()
                        rec["finished"] = job.done()
                        if s["stop"] == "cancel" and not job.done():
                            job.cancel()
                        elif s["stop"] == "exit":
                            await stack.aclose()
                            need(job.done(), f"{name} was closed while still running", "close")
                        with contextlib.suppress(asyncio.CancelledError):
                            await job
                        rec["to"] = sim.now()
                    await asyncio.sleep(s["pause"])

        accepted: dict = {}

        async def submit(i, t):
            await lab.until(1 + t["at"])
            async with lab.docket() as d:
                await d.add(work, when=utcnow() + S(t["delay"]) if t["delay"] else None, key=K(case, i))(i)
                accepted[i] = sim.now()

        jobs = [asyncio.ensure_future(submit(i, t)) for i, t in enumerate(case["tasks"])]
        jobs += [sim.node(f"w{k}").spawn(worker(k, spec)) for k, spec in enumerate(case["workers"])]
        await asyncio.gather(*jobs)
        # whatever is left, one last worker finishes
        async with lab.docket() as d:
            async with Worker(d, name="last", concurrency=2, minimum_check_interval=S(0.1), scheduling_resolution=S(0.1),
                              redelivery_timeout=S(case["redelivery"])) as w:
                sessions.append({"name": "last", "from": sim.now(), "finished": True, "stop": INF, "spec": {"concurrency": 2},
                                 "s": {"how": "finish"}})
                await w.run_until_finished()
                sessions[-1]["to"] = sim.now()

        starts, ends = lab.of("start"), lab.of("end")
        need(not lab.of("interrupted"), f"interrupted: {lab.of('interrupted')}", "interrupted")
        for i, n in total.items():
            got = [e["attempt"] for e in starts if e["i"] == i]
            need(sorted(got) == list(range(1, n + 1)), f"task {i} should take attempts 1 to {n}, started {got}", "attempts")
            need(len([e for e in ends if e["i"] == i]) == n, f"task {i} started {n} times and ended less often", "ends")
        for rec in sessions:
            name = rec["name"]
            mine = sorted([e for e in lab.events if e["kind"] in ("start", "end") and e["w"] == name], key=lambda e: e["t"])
            level = 0
            for e in mine:
                level += 1 if e["kind"] == "start" else -1
                need(level <= rec["spec"]["concurrency"], f"{name} ran {level} tasks at once at t={e['t']:.3f}", "concurrency")
                need(e["t"] <= rec["to"], f"{name} was still at it at t={e['t']:.3f}, after returning at t={rec['to']:.3f}", "return")
                if e["kind"] == "start":
                    need(e["t"] <= rec["stop"] + 3 * slack + 0.1, f"{name} was stopped at t={rec['stop']:.3f} and began {e['i']} at t={e['t']:.3f}",
                         "late-start")
            running = [e for e in mine if e["kind"] == "start" and e["t"] <= rec["stop"]
                       and any(x["kind"] == "end" and x["i"] == e["i"] and x["attempt"] == e["attempt"] and x["t"] > rec["stop"] for x in mine)]
            drained = max([e["t"] for e in mine if e["kind"] == "end"], default=rec["from"])
            if running and rec["stop"] < INF:
                seen.nontrivial = True
                seen.hit("stopped-busy")
            if not rec["finished"]:
                need(rec["to"] <= max(rec["stop"], drained) + 6 * slack + 1, f"{name}: stopped at t={rec['stop']:.3f}, idle since t={drained:.3f}, "
                     f"returned at t={rec['to']:.3f}", "slow-stop")
            elif rec["s"]["how"] == "forever":
                need(False, f"{name} returned by itself", "forever")
            else:
                seen.hit("finished")
                for i, t0 in [*accepted.items(), *((e["i"], e["t"]) for e in lab.of("added"))]:
                    if t0 <= rec["from"]:
                        done = [e for e in ends if e["i"] == i and e["t"] <= rec["to"]]
                        need(len(done) == total[i], f"{name} says all is finished at t={rec['to']:.3f}; of task {i} {len(done)} of {total[i]} "
                             "attempts were over", "unfinished")
                        seen.nontrivial = True
        rec = sessions[-1]
        idle = max([rec["from"], *(e["t"] for e in ends)])
        need(rec["to"] <= idle + case["redelivery"] * (rec["from"] > idle - case["redelivery"]) + 6 * slack + 1,
             f"last worker: nothing to do since t={idle:.3f}, returned at t={rec['to']:.3f}", "slow-finish")
        for i in total:
            key = K(case, i if isinstance(i, int) else f"{i[0]}.{i[1]}")
            need(lab.stored_state(key) == "completed", f"task {i} is {lab.stored_state(key)}", "state")
        need(lab.backlog() == (0, 0), f"left behind: {lab.backlog()}", "left")

    simulate(case, main)


INF = float("inf")


# -- running at most so often ---------------------------------------------------


@st.composite
def most_cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])),
        "concurrency": draw(st.sampled_from([1, 2, 10])),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "kind": st.sampled_from(["perpetual", "perpetual", "plain", "retry"]), "limit": st.sampled_from([None, 0, 1, 2, 3, 5]),
            "every": st.sampled_from([0, 0, 0.5, 2]), "dur": st.sampled_from([0, 0, 0.4]), "natural": st.integers(1, 5),
            "delay": st.sampled_from([0, 0, 1]),
        }), min_size=1, max_size=4)),
    }


def run_most(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)
        tasks = case["tasks"]

        async def body(i, n):
            lab.rec("start", i=i, n=n)
            await asyncio.sleep(tasks[i]["dur"])
            lab.rec("end", i=i, n=n)

        async def perpetual(i: int, n: int = 1, p: Perpetual = Perpetual()):
            p.every = S(tasks[i]["every"])
            await body(i, n)
            if n >= tasks[i]["natural"] and tasks[i]["limit"] is None:
                p.cancel()
            p.perpetuate(i, n + 1)

        async def retry(i: int, r: Retry = Retry(attempts=5)):
            r.delay, r.attempts = S(tasks[i]["every"]), tasks[i]["natural"]
            await body(i, r.attempt)
            raise ValueError("scripted")

        async def plain(i: int):
            await body(i, 1)

        fns = {"perpetual": perpetual, "retry": retry, "plain": plain}
        lab.tasks = list(fns.values())

        def expected(t, limited=True):
            natural = 1 if t["kind"] == "plain" else t["natural"]
            if t["limit"] is None or not limited:
                return natural
            return t["limit"] if t["kind"] == "perpetual" else min(natural, t["limit"])

        async def go():
            async with lab.docket() as d:
                async with Worker(d, name="w", concurrency=case["concurrency"], minimum_check_interval=S(0.1), scheduling_resolution=S(0.1)) as w:
                    for i, t in enumerate(tasks):
                        await d.add(fns[t["kind"]], when=utcnow() + S(t["delay"]) if t["delay"] else None, key=K(case, i))(i)
                    await w.run_at_most({K(case, i): t["limit"] for i, t in enumerate(tasks) if t["limit"] is not None})
                    for i, t in enumerate(tasks):
                        n = len(lab.of("start", i=i))
                        need(n == expected(t) == len(lab.of("end", i=i)), f"{t['kind']} {i} ran {n} times, limit {t['limit']}, "
                             f"of its own {expected(t, False)}", "times")
                    need(lab.backlog() == (0, 0), f"left behind: {lab.backlog()}", "left")
                    # the limits are gone afterwards
                    lab.events.clear()
                    again = [i for i, t in enumerate(tasks) if t["kind"] != "perpetual"]
                    for i in again:
                        await d.add(fns[tasks[i]["kind"]], key=K(case, i))(i)
                    await w.run_until_finished()
                    for i in again:
                        n = len(lab.of("start", i=i))
                        need(n == expected(tasks[i], False), f"{tasks[i]['kind']} {i} ran {n} times once the limit was gone", "limit-stays")
                    seen.nontrivial = any(t["limit"] is not None for t in tasks)

        await sim.node("w").spawn(go())

    simulate(case, main)


PARTS = [
    Part("stopping", cases, run, quick=400, thorough=20_000, rule="a worker was stopped while busy, or finished a docket with tasks"),
    Part("at-most", most_cases, run_most, quick=200, thorough=5_000, rule="some key was limited"),
]
