"""P28: dockets sharing one storage know nothing of each other."""
import contextlib
from typing import Annotated

from hypothesis import strategies as st

from docket import ConcurrencyLimit, Cooldown, CurrentDocket, Debounce, Perpetual, Progress, RateLimit
from docket.execution import ExecutionCancelled
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *

NAMES = [("a", "b"), ("a", "ab"), ("ab", "a"), ("a", "a:b"), ("a:b", "a"), ("a", "A"), ("d-1", "d-10"), ("d.1", "d-1"), ("d*", "d1"), ("d1", "d*"), ("d?", "d1"),
         ("d1", "d?"), ("d[12]", "d1"), ("d1", "d[12]"), ("{d}", "d"), ("d", "{d}"), ("team one", "team"), ("é", "e"), ("a", "a "), ("a\\b", "a"), ("d%", "d"), ("runs", "queue")]
FUNCTIONS = ["plain", "plain", "limited", "cooldown", "ratelimit", "debounce"]


@st.composite
def cases(draw, tier):
    keys = draw(st.integers(1, 5))
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan"])), "names": draw(st.sampled_from(NAMES)),
        "workers": [draw(st.integers(1, 2)), draw(st.integers(0, 2))], "shared": draw(st.booleans()),
        # the quiet docket: one task for each key
        "tasks": [{"at": draw(times(6, 0.1)), "delay": draw(st.sampled_from([0, 0, 1, 5])), "dur": draw(st.sampled_from([0, 0.3, 2])),
                   "fn": draw(st.sampled_from(FUNCTIONS)), "cancel": draw(st.booleans())} for _ in range(keys)],
        # and what goes on in the other one
        "noise": draw(st.lists(st.fixed_dictionaries({
            "at": times(10, 0.1), "key": st.integers(0, keys - 1), "fn": st.sampled_from(FUNCTIONS),
            "op": st.sampled_from(["add", "add", "add", "replace", "cancel", "cancel", "clear", "strike", "restore"]),
            "delay": st.sampled_from([0, 0, 0, 2]), "dur": st.sampled_from([0, 1, 6]),
        }), min_size=1, max_size=16)),
        "looks": draw(st.lists(times(10, 0.1), max_size=4)),
    }


SETTLE = 0.8


def cancelled(t) -> bool:
    """By the quiet docket itself, a second after it has begun."""
    return t["cancel"] and t["fn"] == "plain" and t["dur"] == 2


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]
    quiet, other = case["names"]

    async def main(sim):
        lab = Lab(sim)

        async def body(d, key, who, dur):
            lab.rec("start", d=d.name, key=key, who=who)
            end = "interrupted"
            try:
                await asyncio.sleep(dur)
                end = "end"
            finally:
                lab.rec(end, d=d.name, key=key, who=who)
            return who

        async def plain(key: int, who: str, dur: float, d: Docket = CurrentDocket(), p: Progress = Progress()):
            await p.set_message(who)
            return await body(d, key, who, dur)

        async def limited(key: Annotated[int, ConcurrencyLimit(1)], who: str, dur: float, d: Docket = CurrentDocket()):
            return await body(d, key, who, dur)

        async def cooldown(key: Annotated[int, Cooldown(S(100))], who: str, dur: float, d: Docket = CurrentDocket()):
            return await body(d, key, who, dur)

        async def ratelimit(key: Annotated[int, RateLimit(1, per=S(100))], who: str, dur: float, d: Docket = CurrentDocket()):
            return await body(d, key, who, dur)

        async def debounce(key: Annotated[int, Debounce(S(SETTLE))], who: str, dur: float, d: Docket = CurrentDocket()):
            return await body(d, key, who, dur)

        async def ticking(d: Docket = CurrentDocket(), p: Perpetual = Perpetual(every=S(2), automatic=True)):
            lab.rec("tick", d=d.name)

        async def only_there(): ...

        fns = {f.__name__: f for f in (plain, limited, cooldown, ratelimit, debounce)}
        lab.tasks = [*fns.values(), ticking]
        kw = dict(concurrency=10, scheduling_resolution=S(0.1), minimum_check_interval=S(0.1))
        ws = [lab.start_worker(f"w{i}", docket_kw={"name": quiet}, **kw) for i in range(case["workers"][0])]
        ws += [lab.start_worker(f"w{i}" if case["shared"] else f"v{i}", node_name=f"v{i}", docket_kw={"name": other, "tasks": [*lab.tasks, only_there]}, **kw)
               for i in range(case["workers"][1])]
        await asyncio.sleep(3)
        base = sim.now()
        due, struck = {}, set()

        async def noise():
            async with lab.docket(name=other) as d:
                for n, o in sorted(enumerate(case["noise"]), key=lambda p: p[1]["at"]):
                    await lab.until(base + o["at"])
                    f, key = fns[o["fn"]], K(case, o["key"])
                    if o["op"] in ("add", "replace"):
                        when = utcnow() + S(o["delay"])
                        await (d.add(f, when, key) if o["op"] == "add" else d.replace(f, when, key))(o["key"], f"other{n}", o["dur"])
                    elif o["op"] == "cancel":
                        await d.cancel(key)
                    elif o["op"] == "clear":
                        await d.clear()
                    else:
                        await (d.strike if o["op"] == "strike" else d.restore)(f)
                    seen.hit(o["op"])

        async def submit(d, i, t):
            await lab.until(base + t["at"])
            e = await d.add(fns[t["fn"]], utcnow() + S(t["delay"]) if t["delay"] else None, K(case, i))(i, f"quiet{i}", t["dur"])
            need(e.disposition.value == "scheduled", f"{quiet!r}: a fresh key was refused: {e.disposition}", "refused")
            due[i] = sim.now() + t["delay"]
            got = []

            async def watch():
                async for ev in e.subscribe():
                    if ev["type"] == "state":
                        got.append(ev["state"].value)
                        if got[-1] in ("completed", "failed", "cancelled"):
                            return

            watcher = asyncio.ensure_future(watch())
            if cancelled(t):
                await lab.until(due[i] + 1 + slack)
                await d.cancel(K(case, i))
                try:
                    result = await e.get_result(timeout=S(30))
                except ExecutionCancelled:
                    watcher.cancel()
                    return
                raise Violation(f"{quiet!r}: task {i} was cancelled while running, and has the result {result!r}", "cancel")
            try:
                result = await e.get_result(timeout=S(60))
            except (ExecutionCancelled, TimeoutError) as x:
                raise Violation(f"{quiet!r}: task {i} {t}: {x!r}; {other!r} did {case['noise']}", "result") from None
            need(result == f"quiet{i}", f"{quiet!r}: task {i} has the result {result!r}", "result")
            with contextlib.suppress(TimeoutError):
                await asyncio.wait_for(watcher, 5)
            order = ["scheduled", "queued", "running", "completed"]
            if got[:1] == got[1:2]:
                got = got[1:]  # the initial state, and the event of it
            plainly = t["fn"] in ("plain", "cooldown", "limited")
            need(got and got[-1] == "completed", f"{quiet!r}: task {i}: its subscriber saw {got}", "events")
            if plainly:
                need([order.index(s) for s in got] == sorted({order.index(s) for s in got}), f"{quiet!r}: task {i}: its subscriber saw {got}", "events")

        async def look(d, at):
            await lab.until(base + at)
            snap = await d.snapshot()
            mine = {K(case, i) for i in range(len(case["tasks"]))} | {"ticking"}
            for e in [*snap.future, *snap.running]:
                need(e.key in mine and (e.key == "ticking" or e.args[1].startswith("quiet")), f"{quiet!r}: its snapshot lists {e.key} {e.args}", "snapshot")
            workers = {w.name for w in await d.workers()}
            need(workers <= {f"w{i}" for i in range(case["workers"][0])}, f"{quiet!r}: its workers are said to be {workers}", "workers")
            need(not await d.task_workers("only_there"), f"{quiet!r}: workers for a task of {other!r}", "workers")
            seen.hit("looked")

        # the other docket is opened at all only when something happens there
        async with lab.docket(name=quiet) as d:
            jobs = [submit(d, i, t) for i, t in enumerate(case["tasks"])] + [look(d, at) for at in case["looks"]] + [noise()]
            await asyncio.gather(*jobs)
            await asyncio.sleep(1)
            for i, t in enumerate(case["tasks"]):
                runs = [e for e in lab.events if e["kind"] == "start" and e["who"] == f"quiet{i}"]
                need(len(runs) == 1 and runs[0]["d"] == quiet, f"{quiet!r}: task {i} ran {len(runs)} times, in {[e['d'] for e in runs]}", "runs")
                want = due[i] + (SETTLE if t["fn"] == "debounce" else 0)
                need(want - 0.002 - slack <= runs[0]["t"] <= want + 0.5 + 3 * slack, f"{quiet!r}: task {i} ({t['fn']}) started at t={runs[0]['t']:.3f}, due {want:.3f}",
                     "timing")
                hit = [e for e in lab.of("interrupted") if e["who"] == f"quiet{i}"]
                need(bool(hit) == cancelled(t), f"{quiet!r}: task {i} was {'' if hit else 'not '}interrupted", "interrupted")
            need(not d.strike_list.task_strikes, f"{quiet!r} knows of strikes: {d.strike_list.task_strikes}", "strikes")
            for e in lab.of("start"):
                need(e["d"] == (quiet if e["who"].startswith("quiet") else other), f"{e['who']} ran in {e['d']!r}", "docket")
                need(case["workers"][1] or e["d"] == quiet, f"{e['who']} ran, and {other!r} has no worker", "docket")
            ticks = [e["t"] for e in lab.of("tick") if e["d"] == quiet]
            gaps = [b - a for a, b in zip(ticks, ticks[1:])]
            need(ticks and all(1.9 - slack <= g <= 2.6 + 3 * slack for g in gaps) and sim.now() - ticks[-1] < 2.6 + 3 * slack,
                 f"{quiet!r}: the perpetual task ran at {ticks}, by t={sim.now()}", "ticks")
        seen.nontrivial = any(o["op"] != "restore" for o in case["noise"])
        await close_all(*ws)

    simulate(case, main)


PARTS = [Part("noise", cases, run, quick=300, thorough=20_000, rule="something was done in the other docket")]
