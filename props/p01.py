"""P01: an accepted task runs to its end at least once, whatever crashes."""
from __future__ import annotations

from hypothesis import strategies as st

from docket import Retry
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *

COMMANDS = ["xreadgroup", "xautoclaim", "evalsha", "hgetall", "execute_pipeline", "xclaim", None]
KINDS = ["kill_before", "kill_after", "drop_request", "drop_reply"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    workers = draw(st.integers(1, 3))
    return {
        "seed": draw(seeds),
        "lat": draw(st.sampled_from(["lan", "lan", "wan", "spiky"])),
        "redelivery": draw(st.sampled_from([3, 5, 8])),
        "workers": [{"concurrency": draw(st.sampled_from([1, 2, 10])),
                     "restart": draw(st.sampled_from([0.5, 3, 12]))} for _ in range(workers)],
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": times(8, 0.1),
            "delay": st.sampled_from([0, 0, 0, 0.5, 2, 6]),
            "dur": st.sampled_from([0, 0, 0.1, 1, 4, 20]),
            "fails": st.sampled_from([0, 0, 0, 1, 2]),
        }), min_size=1, max_size=12 if big else 7)),
        "faults": draw(st.lists(st.fixed_dictionaries({
            "worker": st.integers(0, workers - 1),
            "cmd": st.sampled_from(COMMANDS),
            "nth": st.integers(1, 25),
            "kind": st.sampled_from(KINDS),
        }), max_size=6 if big else 4)),
        "kills": draw(st.lists(st.fixed_dictionaries({
            "worker": st.integers(0, workers - 1), "at": times(20, 0.05)}), max_size=4 if big else 2)),
        "outages": draw(st.lists(st.fixed_dictionaries({
            "worker": st.integers(0, workers - 1), "at": times(15, 0.1),
            "len": st.sampled_from([0.2, 1, 5, 15])}), max_size=2)),
    }


def run(case, seen: Seen) -> None:
    box = {}

    async def main(sim):
        lab = Lab(sim)
        box["lab"] = lab

        async def work(token: int, dur: float, fails: int,
                       retry: Retry = Retry(attempts=5, delay=S(0.5))):
            lab.rec("start", token=token)
            if dur:
                await asyncio.sleep(dur)
            if retry.attempt <= fails:
                lab.rec("fail", token=token)
                raise ValueError("scripted failure")
            lab.rec("end", token=token)

        lab.tasks = [work]
        ws = []
        for i, w in enumerate(case["workers"]):
            node = sim.node(f"w{i}")
            node.outage = [(o["at"], o["at"] + o["len"]) for o in case["outages"] if o["worker"] == i]
            node.faults = [{"cmd": f["cmd"], "nth": f["nth"], "kind": f["kind"]}
                           for f in case["faults"] if f["worker"] == i]
            ws.append(lab.start_worker(f"w{i}", restart_after=w["restart"], concurrency=w["concurrency"],
                                       redelivery_timeout=S(case["redelivery"]), reconnection_delay=S(1)))

        async def killer(k):
            await lab.until(k["at"])
            ws[k["worker"]].node.kill()
            seen.hit("killed")

        killers = [asyncio.ensure_future(killer(k)) for k in case["kills"]]
        accepted = {}
        async with lab.docket() as d:
            for i, t in sorted(enumerate(case["tasks"]), key=lambda p: p[1]["at"]):
                await lab.until(t["at"])
                e = await d.add(work, when=utcnow() + S(t["delay"]), key=K(case, i))(i, t["dur"], t["fails"])
                accepted[i] = e.disposition.value
            await asyncio.gather(*killers)

            def finished():
                return (len({e["token"] for e in lab.of("end")}) == len(case["tasks"])
                        and lab.backlog() == (0, 0))

            ok = await lab.quiesce(finished, limit=400, step=1.0)
            need(all(v == "scheduled" for v in accepted.values()), f"a fresh key was refused: {accepted}", "refused")
            ended = {e["token"] for e in lab.of("end")}
            missing = sorted(set(accepted) - ended)
            need(not missing, f"accepted tasks never ran to their end: {missing}; faults="
                 f"{[n.fired for n in sim.nodes.values() if n.fired]}", "lost")
            need(ok, f"messages left behind after everything ran: (stream, queue)={lab.backlog()}", "left-behind")
            for i in accepted:
                st_ = lab.stored_state(K(case, i))
                need(st_ in ("completed", "failed"), f"task {i} ended but its recorded state is {st_}", "state")
            faulted = bool(case["kills"] or case["outages"] or any(n.fired for n in sim.nodes.values()))
            for n in sim.nodes.values():
                for k in n.fired:
                    seen.hit(k)
            if not faulted:
                for i, t in enumerate(case["tasks"]):
                    runs = len(lab.of("start", token=i))
                    need(runs == 1 + t["fails"], f"without any fault task {i} started {runs} times, "
                         f"not {1 + t['fails']}", "duplicate")
            redone = [i for i in accepted if len(lab.of("start", token=i)) > 1 + case["tasks"][i]["fails"]]
            if redone:
                seen.hit("redelivered", len(redone))
            if faulted:
                seen.hit("faulted")
            seen.nontrivial = faulted
            need(all(w.ended_silently == 0 for w in ws), "a worker stopped without an error or a request", "stopped")
            await close_all(*ws)

    simulate(case, main)



@st.composite
def crowds(draw, tier):
    workers = draw(st.integers(1, 3))
    return {
        "seed": draw(seeds), "n": draw(st.sampled_from([60, 99, 100, 101, 130, 199, 201, 256, 300])),
        "at": draw(st.sampled_from(["now", "later", "same instant", "spread", "overdue"])),
        "every": draw(st.sampled_from([1, 1, 2, 7])), "long": draw(st.sampled_from([0, 0, 25, 45])),
        "workers": [draw(st.sampled_from([1, 3, 10, 50, 200])) for _ in range(workers)],
        "kills": draw(st.lists(st.fixed_dictionaries({
            "worker": st.integers(0, workers - 1), "cmd": st.sampled_from(COMMANDS), "nth": st.integers(1, 40),
            "kind": st.sampled_from(KINDS)}), max_size=2)),
    }


def run_crowd(case, seen: Seen) -> None:
    """More tasks due at once than any one step of the machinery takes."""
    async def main(sim):
        lab = Lab(sim)
        n, long = case["n"], case["long"]
        started, ended = {}, set()

        async def work(i):
            started[i] = started.get(i, 0) + 1
            await asyncio.sleep(30 if i < long else 0.01 if i % 5 == 0 else 0)
            ended.add(i)

        lab.tasks = [work]
        ws = []

        def workers():
            for i, c in enumerate(case["workers"]):
                c = max(c, 50) if long else c  # all of them at once, past the redelivery timeout
                sim.node(f"w{i}").faults = [{k: f[k] for k in ("cmd", "nth", "kind")}
                                            for f in case["kills"] if f["worker"] == i]
                ws.append(lab.start_worker(f"w{i}", restart_after=1, concurrency=c, redelivery_timeout=S(20)))

        if case["at"] != "overdue":
            workers()
        async with lab.docket() as d:
            base = utcnow()
            for i in range(n):
                when = {"now": None, "later": base + S(20 + i * 0.001), "same instant": base + S(20),
                        "spread": base + S(1 + i % 7), "overdue": base + S(0.5)}[case["at"]]
                await d.add(work, when=None if i % case["every"] else when, key=K(case, i))(i)
            if case["at"] == "overdue":
                await asyncio.sleep(5)
                workers()
            ok = await lab.quiesce(lambda: len(ended) == n and lab.backlog() == (0, 0), limit=300, step=1.0)
            need(len(ended) == n, f"{n - len(ended)} of {n} accepted tasks never ran to their end", "lost")
            need(ok, f"messages left behind after everything ran: (stream, queue)={lab.backlog()}", "left-behind")
            fired = [k for nd in sim.nodes.values() for k in nd.fired]
            if not fired:
                twice = [i for i in started if started[i] > 1]
                need(not twice, f"without any fault tasks {twice[:5]} ran more than once", "duplicate")
            # a connection lost while a success is being recorded may have it recorded as failed
            fine = ("completed", "failed") if any("drop" in str(f) for f in fired) else ("completed",)
            for i in range(n):
                need(lab.stored_state(K(case, i)) in fine,
                     f"task {i} ended but its recorded state is {lab.stored_state(K(case, i))}", "state")
            seen.hit("faulted", bool(fired))
            seen.hit(case["at"])
            seen.nontrivial = n > 100
            await close_all(*ws)

    simulate(case, main)


PARTS = [Part("crashes", cases, run, quick=800, thorough=40_000, rule="a crash, outage or lost message really hit"),
         Part("crowds", crowds, run_crowd, quick=64, thorough=3_000, rule="more than a hundred tasks at once")]
