"""P02: one key, one task: a submission for a key that is still pending or running is refused."""
from __future__ import annotations

from hypothesis import strategies as st

from docket import Perpetual
from vlib.engine import Part, Seen
from vlib.gens import profiles, seeds, times, worn
from vlib.hist import History, ops
from vlib.lab import *


@st.composite
def cases(draw, tier):
    clients = draw(st.integers(1, 3))
    keys = draw(st.sampled_from([1, 1, 2, 3]))
    return {
        "seed": draw(seeds), "lat": draw(profiles), "clients": clients, "worn": draw(worn),
        "rdelay": draw(st.sampled_from([1.0, 1.0, 0, 0.3])),
        "workers": draw(st.lists(st.sampled_from([1, 2, 10]), min_size=1, max_size=3)),
        "ttl": draw(st.sampled_from([900, 2, 0])),
        "ops": draw(ops(["add"], keys, 8, clients, 20 if tier == "thorough" else 10)),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]))
        h = History(lab, case)
        ws = [lab.start_worker(f"w{i}", concurrency=c) for i, c in enumerate(case["workers"])]
        await h.play(case["ops"], case["clients"])

        def settled():
            return (lab.backlog() == (0, 0)
                    and all(h.final(o["i"]) is not None for o in h.ops if o["result"] == "scheduled"))

        ok = await lab.quiesce(settled, limit=200)
        await asyncio.sleep(2 * slack + 1)
        acc = [o for o in h.ops if o["result"] == "scheduled"]
        ref = [o for o in h.ops if o["result"] != "scheduled"]
        for o in h.ops:
            need(o["result"] in ("scheduled", "already_scheduled"), f"unknown disposition {o['result']}", "disposition")
        for o in ref:
            need(not h.starts(o["i"]), f"submission {o['i']} was reported {o['result']} but ran anyway", "refused-ran")
        need(ok, f"accepted submissions never finished: "
             f"{[o['i'] for o in acc if h.final(o['i']) is None]}, backlog {lab.backlog()}", "lost")
        for o in acc:
            n = len(h.starts(o["i"]))
            need(n == 1 + o["op_case"]["fails"], f"accepted submission {o['i']} started {n} times, "
                 f"not {1 + o['op_case']['fails']}", "times")
        for a in acc:
            for b in acc:
                if a["i"] < b["i"] and a["key"] == b["key"]:
                    fa, fb = h.final(a["i"]), h.final(b["i"])
                    need(a["e"] >= fb or b["e"] >= fa,
                         f"{a['key']}: submissions {a['i']} (accepted by t={a['e']:.3f}, ran until {fa:.3f}) and "
                         f"{b['i']} (accepted by t={b['e']:.3f}, ran until {fb:.3f}) were both accepted "
                         "while the other was unfinished", "overlap")
        for o in ref:
            why = [a for a in acc if a["key"] == o["key"] and a["s"] <= o["e"]
                   and h.final(a["i"]) + slack >= o["s"]]
            need(why, f"submission {o['i']} for {o['key']} was refused at t={o['s']:.3f} though nothing was "
                 "pending or running under that key", "unjustified")
        seen.hit("accepted", len(acc))
        seen.hit("refused", len(ref))
        seen.nontrivial = bool(ref)
        for o in ref:
            for a in acc:
                if a["key"] == o["key"]:
                    bs = h.bodies(a["i"])
                    if any(s < o["s"] and o["e"] < e for s, e in bs):
                        seen.hit("refused-while-running")
                    if len(bs) > 1 and bs[0][1] < o["s"] and o["e"] < bs[-1][0]:
                        seen.hit("refused-between-attempts")
                    if o["op_case"]["flavor"] == "limited":
                        seen.hit("limited")
        need(not lab.worker_ends, f"a worker ended by itself: {lab.worker_ends}", "worker-died")
        await close_all(*ws)

    simulate(case, main)


# -- a live perpetual keeps its key ----------------------------------------


@st.composite
def perpetual_cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(profiles),
        "every": draw(st.sampled_from([0.3, 1, 2.5])), "dur": draw(st.sampled_from([0, 0.2, 1, 4])),
        "fail": draw(st.booleans()), "workers": draw(st.integers(1, 2)),
        "adds": draw(st.lists(times(12, 0.01), min_size=2, max_size=12)),
    }


def run_perpetual(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)

        async def tick(token: int, perpetual: Perpetual = Perpetual(every=S(case["every"]))):
            lab.rec("start", token=token)
            await asyncio.sleep(case["dur"])
            lab.rec("end", token=token)
            if case["fail"]:
                raise ValueError("scripted")

        lab.tasks = [tick]
        ws = [lab.start_worker(f"w{i}") for i in range(case["workers"])]
        async with lab.docket() as d:
            first = await d.add(tick, key="p")(0)
            need(first.disposition.value == "scheduled", "fresh key refused", "refused")
            first_done = sim.now()

            async def later(i, at):
                await lab.until(first_done + at)
                e = await d.add(tick, key="p")(i)
                need(e.disposition.value == "already_scheduled",
                     f"a second add at t={sim.now():.3f} was accepted though the perpetual is live", "overlap")
                seen.hit("refused")

            await asyncio.gather(*(later(i + 1, t) for i, t in enumerate(case["adds"])))
            await asyncio.sleep(case["every"] + case["dur"] + slack)
            need(not [e for e in lab.of("start") if e["token"] != 0], "a refused add ran", "refused-ran")
            live = 0
            for e in lab.events:
                live += {"start": 1, "end": -1}.get(e["kind"], 0)
                need(live <= 1, f"two runs of one key at t={e['t']:.3f}", "two-runs")
            seen.nontrivial = len(lab.of("start")) > 1
        await close_all(*ws)

    simulate(case, main)


# -- keys spelled like something else ------------------------------------------

# the names of the docket's own structures; where one of these fails, that is a finding of its own
RESERVED = ["queue", "stream", "strikes", "runs:other"]
SPELLED = [*RESERVED, "workers", "queues", "Queue", "runs", "runs:", "runs:another", "progress:other", "results:other", "known:other", "stream-id:other",
           "state:other", "cancel:other", "parked:other", "other:queue", ":queue", "d:queue", "d:runs:other", "d", "None", "0", "other ", "tick"]


@st.composite
def names(draw, tier):
    return {"seed": draw(seeds), "lat": "zero", "key": draw(st.sampled_from(SPELLED)),
            "first": draw(st.sampled_from(["nothing", "cancel"])), "how": draw(st.sampled_from(["add", "replace"])),
            "delay": draw(st.sampled_from([0, 1, 1])), "then": draw(st.sampled_from(["add", "cancel", "replace"]))}


def run_names(case, seen: Seen) -> None:
    """However a key is spelled, it is a key like any other, and leaves the others alone."""
    key = case["key"]
    signature = f"reserved:{key}" if key in RESERVED else "spelling"

    async def main(sim):
        lab = Lab(sim)

        async def tick(who: str):
            lab.rec("start", who=who)

        lab.tasks = [tick]

        async def attempt(d):
            await d.add(tick, lab.when(4), key="other")("other")
            if case["first"] == "cancel":
                await d.cancel(key)
            verb = d.add if case["how"] == "add" else d.replace
            e = await verb(tick, lab.when(2 + case["delay"]), key)("first")
            need(e.disposition.value == "scheduled", f"{key!r}: a fresh key was refused", signature)
            if case["then"] == "cancel":
                await d.cancel(key)
            elif case["then"] == "replace":
                await d.replace(tick, lab.when(3), key)("second")
            else:
                again = await d.add(tick, lab.when(3), key)("second")
                need(again.disposition.value == "already_scheduled", f"{key!r}: a live key was accepted again", signature)
            w = lab.start_worker("w", minimum_check_interval=S(0.1), scheduling_resolution=S(0.1))
            await asyncio.sleep(8)
            ran = sorted(e["who"] for e in lab.of("start"))
            want = {"cancel": ["other"], "replace": ["other", "second"], "add": ["first", "other"]}[case["then"]]
            need(ran == want, f"{key!r}: {case}: ran {ran}, not {want}", signature)
            need(lab.backlog() == (0, 0) and not lab.worker_ends, f"{key!r}: left over {lab.backlog()}, workers ended {lab.worker_ends}", signature)
            await close_all(w)

        async with lab.docket() as d:
            try:
                await attempt(d)
            except Violation:
                raise
            except Exception as x:  # noqa: BLE001
                raise Violation(f"{key!r}: {case}: {x!r}", signature) from None
        seen.hit(case["then"])
        seen.nontrivial = True

    simulate(case, main)


PARTS = [
    Part("names", names, run_names, quick=200, thorough=2_000, rule="always"),
    Part("adds", cases, run, quick=1600, thorough=60_000, rule="at least one submission was refused"),
    Part("perpetual", perpetual_cases, run_perpetual, quick=400, thorough=10_000, rule="the chain went round"),
]
