"""P22: progress is what the task's current attempt has reported, for readers and subscribers alike."""
import itertools

from hypothesis import strategies as st

from docket import Progress, Retry
from docket.execution import ExecutionProgress
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *
from vlib.sim import current_node

INF = float("inf")
amounts = st.sampled_from([1, 1, 2, 7, 10**6, 2**40])
messages = st.sampled_from(["a", "b", "", "0", "None", "ünï ✓\n\"x\"", None])
ops = st.one_of(
    st.tuples(st.just("total"), st.sampled_from([1, 2, 10, 100, 2**45])),
    st.tuples(st.just("inc"), amounts),
    st.tuples(st.just("msg"), messages),
    st.tuples(st.just("par"), st.lists(amounts, min_size=2, max_size=4)),
    st.tuples(st.just("sleep"), st.sampled_from([0.1, 0.4, 1.5])),
    st.tuples(st.just("bad"), st.sampled_from(["total", "inc"])),
).map(list)


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan", "spiky"])),
        "workers": draw(st.integers(1, 2)), "concurrency": draw(st.sampled_from([1, 10])),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": times(2, 0.1),
            # each run of the key: what its attempts report; all but the last fail
            "runs": st.lists(st.lists(st.lists(ops, max_size=7), min_size=1, max_size=3), min_size=1, max_size=2),
            "retry_delay": st.sampled_from([0, 0.6]), "fails": st.booleans(),
            "reads": st.lists(times(8, 0.05), max_size=6),
            "subs": st.lists(st.tuples(times(5, 0.05), st.sampled_from(["task", "progress"])).map(list), max_size=2),
        }), min_size=1, max_size=2)),
    }


@st.composite
def kill_cases(draw, tier):
    case = draw(cases(tier))
    for t in case["tasks"]:
        t["subs"] = []
    return {**case, "kills": draw(st.lists(times(6, 0.02), min_size=1, max_size=3))}


NOTHING = (None, 100, None)
FRESH = (0, 100, None)


class Story:
    """What one key's progress has been: versions, each in force from some moment in [begin, end] on."""

    def __init__(self, now):
        self.now = now
        self.versions: list[dict] = [{"states": {NOTHING}, "begin": -INF, "end": -INF}]
        self.events: list = []  # ("running",) or a set of (current, total, message) groups

    def begin(self, states) -> dict:
        v = {"states": set(states), "begin": self.now(), "end": INF}
        node = current_node()
        if node is None or not node.dead:
            self.versions.append(v)
        return v

    def possible(self, r0, r1, since) -> list[int]:
        out, floor = [], INF
        for n in reversed(range(len(self.versions))):
            if n >= since and self.versions[n]["begin"] <= r1 and floor >= r0:
                out.append(n)
            floor = min(floor, self.versions[n]["end"])
        return out[::-1]


def run(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)
        stories = [Story(sim.now) for _ in case["tasks"]]
        run_of: dict[int, int] = {}

        async def work(i: int, progress: Progress = Progress(), retry: Retry = Retry(attempts=9)):
            t, s = case["tasks"][i], stories[i]
            attempts = t["runs"][run_of[i]]
            retry.attempts, retry.delay = len(attempts), S(t["retry_delay"])
            me = (run_of[i], retry.attempt)
            s.versions[-1]["end"] = sim.now()
            lab.rec("start", i=i, me=me)
            state = FRESH

            def same(what):
                here = (progress.current, progress.total, progress.message)
                need(here == state, f"task {i} {me}: {what}, its progress is {here}, not {state}", "own-view")

            same("at the start")
            try:
                for op, arg in attempts[retry.attempt - 1]:
                    if op == "sleep":
                        await asyncio.sleep(arg)
                    elif op == "bad":
                        try:
                            await (progress.set_total(0) if arg == "total" else progress.increment(0))
                        except ValueError:
                            pass
                        else:
                            need(False, f"{arg} of 0 was accepted", "bad")
                    elif op == "par":
                        c, tot, msg = state
                        partial = {(c + sum(x), tot, msg) for n in range(len(arg) + 1) for x in itertools.combinations(arg, n)}
                        v = s.begin(partial)
                        s.events.append((me, len(arg), partial - {state}))
                        await asyncio.gather(*(progress.increment(n) for n in arg))
                        state = (c + sum(arg), tot, msg)
                        v["end"] = sim.now()
                        w = s.begin({state})
                        w["begin"], w["end"] = v["begin"], sim.now()
                    else:
                        c, tot, msg = state
                        state = {"total": (c, arg, msg), "inc": (c + arg if op == "inc" else 0, tot, msg), "msg": (c, tot, arg)}[op]
                        v = s.begin({state})
                        s.events.append((me, 1, {state}))
                        await {"total": progress.set_total, "inc": progress.increment, "msg": progress.set_message}[op](arg)
                        v["end"] = sim.now()
                    same(f"after {op} {arg}")
                lab.rec("done", i=i, me=me)
            except Violation as e:
                lab.rec("broken", error=e)
                raise
            finally:
                last = retry.attempt == len(attempts)
                s.begin({NOTHING} if last else {FRESH})
            if not last or t["fails"]:
                raise ValueError("scripted")

        lab.tasks = [work]
        ws = [lab.start_worker(f"w{i}", restart_after=0.3, concurrency=case["concurrency"],
                               redelivery_timeout=S(3)) for i in range(case["workers"])]
        await asyncio.sleep(1)

        async def killer(n, at):
            await lab.until(1 + at)
            w = ws[n % len(ws)]
            for i, s in enumerate(stories):
                if lab.events and any(e["node"] == w.node.name and e["i"] == i for e in lab.of("start")):
                    # whatever it was doing may or may not have happened; if it is claimed again, it starts over
                    s.begin({FRESH} | s.versions[-1]["states"])
            w.node.kill()
            seen.hit("kills")

        killers = [asyncio.ensure_future(killer(n, at)) for n, at in enumerate(case.get("kills", []))]

        async def life(i, t):
            s, key = stories[i], K(case, i)
            await lab.until(1 + t["at"])
            async with lab.docket() as d:
                for r, attempts in enumerate(t["runs"]):
                    run_of[i] = r
                    first = len(s.versions)
                    s.begin({FRESH})
                    began = len(s.events)
                    t0 = sim.now()
                    over = asyncio.Event()
                    ex = await d.add(work, key=key)(i)

                    async def read(e, since, n):
                        r0 = sim.now()
                        if n % 2 and e is not None:
                            await e.sync()
                            p = e.progress
                        else:
                            p = await ExecutionProgress.create(d, key)
                        got, r1 = (p.current, p.total, p.message), sim.now()
                        allowed = s.possible(r0, r1, since)
                        fit = [v for v in allowed if got in s.versions[v]["states"]]
                        need(fit, f"task {i}: read {got} during [{r0:.3f}, {r1:.3f}], possible were "
                                  f"{[s.versions[v] for v in allowed]}", "read")
                        if got[0]:
                            seen.hit("reads_midway")
                            seen.nontrivial = True
                        return fit[0]

                    async def reader():
                        since = first - 1
                        async with lab.docket() as d2:
                            for n, at in enumerate(sorted(t["reads"])):
                                await lab.until(t0 + at)
                                since = await read(await d2.get_execution(key) if n % 3 == 1 else ex, since, n)

                    async def subscriber(at, kind):
                        await lab.until(t0 + at)
                        async with lab.docket() as d2:
                            e = await d2.get_execution(key)
                            where = f"task {i}, run {r}, subscriber ({kind}) from t={sim.now():.3f}"
                            if e is None:
                                need(False, f"{where}: no such task", "gone")
                            ready = asyncio.Event()
                            # reports completed before the subscription are not seen; those begun after it are
                            low, high, got, me = len(s.events), None, [], 0
                            busy = sum(v["end"] == INF for v in s.versions[first:]) > 0
                            gen = e.progress.subscribe(ready=ready) if kind == "progress" else e.subscribe(ready=ready)
                            inbox: asyncio.Queue = asyncio.Queue()

                            async def pump():
                                async for ev in gen:
                                    inbox.put_nowait((sim.now(), ev))
                            p = asyncio.ensure_future(pump())
                            await ready.wait()
                            high = len(s.events)
                            await over.wait()
                            await asyncio.sleep(2 * SLACK[case["lat"]] + 0.5)
                            p.cancel()
                            evs = [inbox.get_nowait()[1] for _ in range(inbox.qsize())]
                            if kind == "task":
                                need([x["type"] for x in evs[:2]] == ["state", "progress"], f"{where}: began with {evs[:2]}", "first")
                                evs = evs[2:]
                            running = [x for x in evs if x["type"] == "state"]
                            reports = [x for x in evs if x["type"] == "progress"]
                            for x in reports:
                                need(x["key"] == key and x["updated_at"], f"{where}: {x}", "event")
                            values = [(x["current"], x["total"], x["message"]) for x in reports]
                            expect = s.events[began:]
                            low, high = low - began, high - began
                            # any tail of the reports that begins in between (a parallel group may be cut)
                            ok = False
                            for j in range(max(low - 1, 0), high + 1):
                                need_n = sum(n for _, n, _ in expect[j:])
                                cut = expect[j][1] if j < len(expect) else 0
                                if not need_n - max(cut - 1, 0) <= len(values) <= need_n:
                                    continue
                                rest, fine = list(values), True
                                for m, (_, n, states) in enumerate(reversed(expect[j:])):
                                    group = [rest.pop() for _ in range(min(n, len(rest)))]
                                    fine = fine and set(group) <= states and len(set(group)) == len(group)
                                    if n > 1 and len(group) == n:
                                        fine = fine and max(states) in group
                                if fine and not rest:
                                    ok = True
                                    break
                            need(ok, f"{where}: reports {values}, the task's were {expect} ({low} to {high} done before)", "events")
                            if len(values) > 1:
                                seen.nontrivial = True
                                seen.hit("reports", len(values))
                            if kind == "task" and low == 0 and high == 0:
                                # between the right state changes, too
                                n, heard = 0, []
                                for x in evs:
                                    if x["type"] == "state" and x["state"].value == "running":
                                        n += 1
                                    elif x["type"] == "progress":
                                        heard.append(n)
                                if n == len(attempts):
                                    own = [m[1] for m, k, _ in expect for _ in range(k)]
                                    need(heard == own, f"{where}: reports of attempts {own} came in attempts {heard}", "attempt")

                    jobs = [asyncio.ensure_future(reader())] + [asyncio.ensure_future(subscriber(*x)) for x in t["subs"]]
                    error = None
                    try:
                        await ex.get_result(timeout=S(400))
                    except ValueError as e:
                        error = e
                    for e in lab.of("broken"):
                        raise e["error"]
                    s.versions[-1]["end"] = sim.now()
                    over.set()
                    for n in range(2):
                        await read(ex, len(s.versions) - 1, n)
                    for j in jobs:
                        await j
                    need(not sim.server.q("exists", f"d:progress:{key}"), f"task {i}: a progress record is left", "left")

        await asyncio.gather(*(life(i, t) for i, t in enumerate(case["tasks"])))
        for k in killers:
            await k
        await close_all(*ws)

    simulate(case, main)


PARTS = [
    Part("reports", cases, run, quick=500, thorough=20_000, rule="a value was read midway, or reports were received"),
    Part("crashes", kill_cases, run, quick=300, thorough=10_000, rule="a value was read midway"),
]
