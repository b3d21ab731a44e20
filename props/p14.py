"""P14: concurrency limits are never exceeded, and never leave a task waiting for a free slot."""

from typing import Annotated

from hypothesis import strategies as st

from docket import ConcurrencyLimit, Retry
from vlib.engine import Part, Seen
from vlib.gens import seeds, times, units
from vlib.lab import *

COMMANDS = ["xreadgroup", "xautoclaim", "evalsha", "evalsha", "evalsha", "zadd", "hget", "execute_pipeline", None]
KINDS = ["kill_before", "kill_after", "drop_request", "drop_reply"]
# Tasks that share a limit: the scope, the parameter and its value, not the task
STYLES = ["annotated", "annotated", "other", "legacy", "whole", "scoped"]


@st.composite
def cases(draw, tier, faulty):
    big = tier == "thorough"
    workers = draw(st.integers(1, 3))
    case = {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(st.sampled_from(["zero", "lan", "lan", "wan"])),
        "redelivery": draw(st.sampled_from([6, 10] if faulty else [6, 30])),
        "limit": draw(st.sampled_from([1, 1, 1, 2, 3])),
        "workers": [{"concurrency": draw(st.sampled_from([1, 2, 4, 10])), "restart": draw(st.sampled_from([0.5, 3, 12]))}
                    for _ in range(workers)],
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": st.one_of(st.just(0), times(10, 0.1)), "delay": st.sampled_from([0, 0, 0, 0.5, 2]),
            "group": st.sampled_from([0, 0, 0, 1]), "style": st.sampled_from(STYLES),
            "how": st.sampled_from(WRITTEN),
            "dur": st.sampled_from([0, 0.1, 0.5, 1, 3] + ([9, 14] if faulty else [9])), "fails": st.sampled_from([0, 0, 0, 1]),
        }), min_size=2, max_size=12 if big else 8)),
    }
    if faulty:
        case["faults"] = draw(st.lists(st.fixed_dictionaries({
            "worker": st.integers(0, workers - 1), "cmd": st.sampled_from(COMMANDS), "nth": st.integers(1, 12),
            "from": st.one_of(st.just(0), times(20, 0.5)), "kind": st.sampled_from(KINDS)}), max_size=5 if big else 3))
        case["kills"] = draw(st.lists(st.fixed_dictionaries({
            "worker": st.integers(0, workers - 1), "at": times(20, 0.05)}), max_size=3 if big else 2))
    return case


@st.composite
def handoff_cases(draw, tier):
    """Crashes right around the end of a holder that others wait for."""
    workers = draw(st.integers(1, 3))
    dur = draw(st.sampled_from([1, 4, 9, 14]))
    style = draw(st.sampled_from(STYLES))
    task = {"group": 0, "style": style, "delay": 0, "fails": 0, "how": draw(st.sampled_from(WRITTEN))}
    return {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(st.sampled_from(["zero", "lan", "lan", "wan"])),
        "redelivery": draw(st.sampled_from([3, 6])), "limit": 1,
        "workers": [{"concurrency": draw(st.sampled_from([1, 4])), "restart": draw(st.sampled_from([0.5, 3, 12]))}
                    for _ in range(workers)],
        "tasks": [{**task, "at": 1, "dur": dur, "fails": draw(st.sampled_from([0, 0, 1]))}]
                 + [{**task, "at": draw(st.one_of(st.sampled_from([1, 1.2, 2]), times(0.1, 0.001).map(lambda o: 0.95 + dur + o))), "dur": draw(st.sampled_from([0, 0.5, 4]))}
                    for _ in range(draw(st.integers(1, 3)))],
        "faults": [{"worker": w, "cmd": "evalsha", "nth": draw(st.integers(1, 4)), "from": dur + 0.97,
                    "kind": draw(st.sampled_from(KINDS))} for w in range(workers) if w == 0 or draw(st.booleans())],
        "kills": [],
    }


def group_of(t) -> str:
    return {"annotated": f"d:customer:{t['group']}", "other": f"d:customer:{t['group']}", "legacy": f"d:customer:{t['group']}",
            "whole": "d:whole", "scoped": f"elsewhere:customer:{t['group']}"}[t["style"]]


def scenario(case, sim, lab):
    n = case["limit"]
    policy = Retry(attempts=3, delay=S(0.5))

    async def body(i, attempt):
        t = case["tasks"][i]
        lab.rec("start", i=i)
        if t["dur"]:
            await asyncio.sleep(t["dur"])
        lab.rec("stop", i=i, ok=attempt > t["fails"])
        if attempt <= t["fails"]:
            raise ValueError("scripted")

    async def annotated(i: int, customer: Annotated[int, ConcurrencyLimit(n)], retry: Retry = policy):
        await body(i, retry.attempt)

    async def other(i: int, customer: Annotated[int, ConcurrencyLimit(n)] = 0, retry: Retry = policy):
        await body(i, retry.attempt)

    async def legacy(i: int, customer: int = 0, limit: ConcurrencyLimit = ConcurrencyLimit("customer", n), retry: Retry = policy):
        await body(i, retry.attempt)

    async def whole(i: int, customer: int, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=n), retry: Retry = policy):
        await body(i, retry.attempt)

    async def scoped(i: int, customer: Annotated[int, ConcurrencyLimit(n, scope="elsewhere")], retry: Retry = policy):
        await body(i, retry.attempt)

    lab.tasks = [annotated, other, legacy, whole, scoped]
    return {f.__name__: f for f in lab.tasks}


def intervals(lab, sim, i):
    """[(start, stop)] of this task's bodies; a killed process's bodies stop with it."""
    out, open_ = [], {}
    for e in lab.events:
        if e.get("i") != i:
            continue
        if e["kind"] == "start":
            open_.setdefault(e["node"], []).append(e["t"])
        elif e["kind"] == "stop":
            out.append((open_[e["node"]].pop(0), e["t"]))
    for node, ts in open_.items():
        n = sim.nodes[node]
        out += [(t, n.died if n.dead else float("inf")) for t in ts]
    return sorted(out)


def check_safety(case, lab, sim, seen):
    groups: dict[str, list] = {}
    for i, t in enumerate(case["tasks"]):
        groups.setdefault(group_of(t), []).extend(intervals(lab, sim, i))
    for g, ivs in groups.items():
        marks = sorted([(a, 1) for a, b in ivs if b > a] + [(b, -1) for a, b in ivs if b > a])
        level = top = 0
        for t, d in marks:
            level += d
            top = max(top, level)
            need(level <= case["limit"], f"{level} tasks of {g!r} run at {t:.3f}, limit {case['limit']}", "exceeded")
        if top == case["limit"]:
            seen.hit("limit-reached")


def run_calm(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)
        fns = scenario(case, sim, lab)
        ws = [lab.start_worker(f"w{i}", concurrency=w["concurrency"], redelivery_timeout=S(case["redelivery"]),
                               scheduling_resolution=S(0.25), minimum_check_interval=S(0.1))
              for i, w in enumerate(case["workers"])]
        await asyncio.sleep(3 + slack)
        base = sim.now()
        added = {}
        async with lab.docket() as d:
            async def submit(i, t):
                await lab.until(base + t["at"])
                args, kw = spread(fns[t["style"]], t["how"], i=i, customer=t["group"])
                e = await d.add(fns[t["style"]], when=utcnow() + S(t["delay"]) if t["delay"] else None, key=K(case, i))(*args, **kw)
                need(e.disposition.value == "scheduled", f"a fresh key was refused: {e.disposition}", "refused")
                added[i] = sim.now() + t["delay"]

            await asyncio.gather(*(submit(i, t) for i, t in enumerate(case["tasks"])))

            def finished():
                return len(lab.of("stop", ok=True)) == len(case["tasks"]) and lab.backlog() == (0, 0)

            ok = await lab.quiesce(finished, limit=60 + 12 * len(case["tasks"]) * (1 + slack))
            check_safety(case, lab, sim, seen)
            missing = [i for i in added if not lab.of("stop", i=i, ok=True)]
            need(not missing, f"tasks left waiting: {missing} of groups {sorted({group_of(case['tasks'][i]) for i in missing})}", "stuck")
            need(ok, f"left over: {lab.backlog()}", "leftover")

            # never idle: no task waits (longer than it takes to notice) for a slot that is free
            total = sum(w["concurrency"] for w in case["workers"])
            waits = []
            for i, t in enumerate(case["tasks"]):
                ivs = intervals(lab, sim, i)
                need(len(ivs) == 1 + t["fails"], f"task {i} ran {len(ivs)} times, not {1 + t['fails']}", "runs")
                waits.append((group_of(t), added[i], ivs[0][0]))
                for (_, b), (c, _) in zip(ivs, ivs[1:]):
                    waits.append((group_of(t), b + 0.5, c))
            busy = [(group_of(t), a, b) for i, t in enumerate(case["tasks"]) for a, b in intervals(lab, sim, i)]
            points = sorted({x for _, a, b in waits + busy for x in (a, b)})
            bound = 4 * slack + 1.0
            idle: dict[str, float | None] = {}
            for a, b in zip(points, points[1:]):
                mid = (a + b) / 2
                running = [g for g, x, y in busy if x <= mid < y]
                # a worker whose slots are full cannot take more; only claim it for free ones
                for g in {g for g, x, y in waits if x <= mid < y}:
                    if running.count(g) < case["limit"] and len(running) < total:
                        idle.setdefault(g, a)
                        if idle[g] is None:
                            idle[g] = a
                        need(b - idle[g] <= bound, f"a task of {g!r} waits from {idle[g]:.2f} to {b:.2f} though "
                             f"{running.count(g)} of {case['limit']} run", "idle")
                    else:
                        idle[g] = None
                for g in list(idle):
                    if not any(h == g and x <= mid < y for h, x, y in waits):
                        idle[g] = None
            parked = sum(1 for g, a, b in waits if b - a > 2 * slack + 0.5)
            seen.hit("waited", parked)
            seen.nontrivial = parked > 0
            await asyncio.sleep(case["redelivery"] + 2)
            left = [k for k in sim.server.keys()
                    if ":concurrency:" in k or "__safeguard__" in k and sim.server.q("ttl", k) < 0]
            need(not left, f"left over: {left}", "keys")
            need(lab.backlog() == (0, 0), f"left over: {lab.backlog()}", "leftover")
        await close_all(*ws)

    simulate(case, main)


def run_faulty(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)
        fns = scenario(case, sim, lab)
        ws = []
        for i, w in enumerate(case["workers"]):
            node = sim.node(f"w{i}")
            node.faults = [{k: f[k] for k in ("cmd", "nth", "kind", "from")} for f in case["faults"] if f["worker"] == i]
            ws.append(lab.start_worker(f"w{i}", restart_after=w["restart"], concurrency=w["concurrency"],
                                       redelivery_timeout=S(case["redelivery"]), reconnection_delay=S(1)))

        async def killer(k):
            await lab.until(k["at"])
            ws[k["worker"]].node.kill()

        killers = [asyncio.ensure_future(killer(k)) for k in case["kills"]]
        async with lab.docket() as d:
            for i, t in sorted(enumerate(case["tasks"]), key=lambda p: p[1]["at"]):
                await lab.until(t["at"])
                args, kw = spread(fns[t["style"]], t["how"], i=i, customer=t["group"])
                await d.add(fns[t["style"]], when=utcnow() + S(t["delay"]), key=K(case, i))(*args, **kw)
            await asyncio.gather(*killers)

            def finished():
                return len({e["i"] for e in lab.of("stop", ok=True)}) == len(case["tasks"]) and lab.backlog() == (0, 0)

            ok = await lab.quiesce(finished, limit=300 + 60 * len(case["tasks"]), step=1.0)
            check_safety(case, lab, sim, seen)
            ended = {e["i"] for e in lab.of("stop", ok=True)}
            missing = sorted(set(range(len(case["tasks"]))) - ended)
            need(not missing, f"tasks left waiting: {missing}", "stuck")
            need(ok, f"left over: {lab.backlog()}", "leftover")
            await asyncio.sleep(5 * case["redelivery"])
            left = [k for k in sim.server.keys() if ":concurrency:" in k]
            need(not left, f"left over: {left}", "keys")
            fired = bool(case["kills"]) or any(n.fired for n in sim.nodes.values())
            seen.nontrivial = fired and bool(seen.labels.get("limit-reached"))
            for n in sim.nodes.values():
                for k in n.fired:
                    seen.hit(k)
        await close_all(*ws)

    simulate(case, main)


PARTS = [
    Part("calm", lambda tier: cases(tier, False), run_calm, quick=300, thorough=25_000, rule="a task had to wait for a slot"),
    Part("crashes", lambda tier: cases(tier, True), run_faulty, quick=300, thorough=25_000,
         rule="the limit was reached and a crash or lost message really hit"),
    Part("handoff", handoff_cases, run_faulty, quick=300, thorough=20_000,
         rule="the limit was reached and a crash or lost message really hit"),
]
