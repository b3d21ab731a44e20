"""P25: snapshot() shows every task where it is, and workers() those that are alive."""
import contextlib

from hypothesis import strategies as st

from docket import Retry
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *

NAMES = ["alpha", "beta", "gamma"]


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])),
        "redelivery": draw(st.sampled_from([None, 2, 8])),
        "interval": draw(st.sampled_from([0.5, 2])), "missed": draw(st.integers(2, 5)),
        "workers": draw(st.lists(st.fixed_dictionaries({
            "at": times(3, 0.1), "concurrency": st.sampled_from([1, 2, 10]), "knows": st.one_of(st.just(NAMES), st.just(NAMES), st.just(NAMES), st.sets(st.sampled_from(NAMES)).map(sorted)),
            "end": st.sampled_from(["", "", "stop", "kill"]), "after": times(8, 0.1),
        }), max_size=3)),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": times(10, 0.1), "delay": st.sampled_from([0, 0, 1, 5, 20]), "dur": st.sampled_from([0, 0.5, 3, 6, 14]),
            "as": st.sampled_from(NAMES), "fails": st.sampled_from([0, 0, 0, 1]), "retry_delay": st.sampled_from([0.3, 4]),
        }), min_size=2, max_size=8)),
        "looks": draw(st.lists(st.fixed_dictionaries({"at": st.one_of(times(12, 0.05), times(24, 0.05)), "knows": st.booleans()}), min_size=1, max_size=4)),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]
    gone_after = case["interval"] * case["missed"]
    # the leases of long tasks are renewed; a killed worker's tasks must stay where they are here
    redelivery = S(case["redelivery"] if case["redelivery"] and all(w["end"] != "kill" for w in case["workers"]) else 300)

    async def main(sim):
        lab = Lab(sim, heartbeat_interval=S(case["interval"]), missed_heartbeats=case["missed"])

        async def work(i: int, retry: Retry = Retry(attempts=2)):
            t = case["tasks"][i]
            retry.delay = S(t["retry_delay"])
            lab.rec("start", i=i, attempt=retry.attempt)
            try:
                await asyncio.sleep(t["dur"])
            finally:
                lab.rec("end", i=i, attempt=retry.attempt)
            if retry.attempt <= t["fails"]:
                raise ValueError("scripted")

        workers = []

        async def worker(k, spec):
            await lab.until(1 + spec["at"])
            node = sim.node(f"w{k}")
            rec = {"name": f"w{k}", "from": None, "leaving": INF, "gone": INF, "killed": INF, "spec": spec}
            workers.append(rec)
            stop = asyncio.Event()

            async def go():
                async with lab.docket([]) as d:
                    for n in spec["knows"]:
                        d.register(work, names=[n])
                    async with Worker(d, name=f"w{k}", concurrency=spec["concurrency"], minimum_check_interval=S(0.1), scheduling_resolution=S(0.1), redelivery_timeout=redelivery) as w:
                        rec["tasks"] = set(d.tasks)
                        job = asyncio.ensure_future(w.run_forever())
                        rec["from"] = sim.now()
                        await stop.wait()
                        job.cancel()
                        with contextlib.suppress(asyncio.CancelledError):
                            await job
                rec["gone"] = sim.now()
            job = node.spawn(go())
            rec["job"], rec["stop"], rec["node"] = job, stop, node
            if spec["end"]:
                await lab.until(1 + spec["at"] + spec["after"])
                rec["leaving"] = sim.now()
                if spec["end"] == "kill":
                    rec["killed"] = sim.now()
                    node.kill()
                else:
                    stop.set()

        subs: dict[int, dict] = {}

        async def submit(i, t):
            await lab.until(1 + t["at"])
            async with lab.docket([]) as d:
                d.register(work, names=NAMES)
                when = utcnow() + S(t["delay"])
                t0 = sim.now()
                await d.add(t["as"], when=when, key=K(case, i))(i)
                subs[i] = {"from": t0, "to": sim.now(), "due": t0 + t["delay"], "when": when}

        def story(i):
            starts = [e for e in lab.of("start", i=i)]
            return [(s["t"], next((e["t"] for e in lab.of("end", i=i, attempt=s["attempt"]) if e["t"] >= s["t"]), INF), s["node"]) for s in starts]

        looks = []

        async def look(spec):
            await lab.until(1 + spec["at"])
            async with lab.docket([]) as d:
                if spec["knows"]:
                    d.register(work, names=NAMES)
                s0 = sim.now()
                snap = await d.snapshot()
                s1 = sim.now()
                per_task = {n: await d.task_workers(n) for n in NAMES}
                looks.append((s0, s1, snap, per_task, sim.now()))

        jobs = [asyncio.ensure_future(worker(k, s)) for k, s in enumerate(case["workers"])]
        jobs += [asyncio.ensure_future(submit(i, t)) for i, t in enumerate(case["tasks"])]
        jobs += [asyncio.ensure_future(look(s)) for s in case["looks"]]
        await asyncio.gather(*jobs)
        await asyncio.sleep(30)

        for s0, s1, snap, per_task, s2 in looks:
            at = f"snapshot during [{s0:.3f}, {s1:.3f}]"
            running = {x.key: x for x in snap.running}
            future = {x.key: x for x in snap.future}
            keys = [x.key for x in snap.running] + [x.key for x in snap.future]
            low = high = 0
            for i, s in subs.items():
                key, t, runs = K(case, i), case["tasks"][i], story(i)
                times_listed = keys.count(key)
                if s["from"] > s1:
                    need(not times_listed, f"{at} lists task {i}, submitted at t={s['from']:.3f}", "early")
                    continue
                need(times_listed <= 1, f"{at} lists task {i} {times_listed} times", "twice")
                x = running.get(key) or future.get(key)
                if x:
                    need(x.args == (i,) and x.kwargs == {}, f"{at}: task {i} has arguments {x.args} {x.kwargs}", "arguments")
                    need(x.function_name == t["as"], f"{at}: task {i} is shown as {x.function_name!r}, it was submitted as {t['as']!r}", "name")
                    if not runs or runs[0][0] > s1:
                        need(x.when == s["when"], f"{at}: task {i} is due at {x.when}, not {s['when']}", "when")
                unknown = [w for w in workers if t["as"] not in w["spec"]["knows"]]
                if unknown:
                    seen.hit("unknown")
                    continue  # one of those may have dropped it
                over = len(runs) > t["fails"] and all(b < INF for _, b, _ in runs)
                # perhaps it was killed before it could say so
                unsaid = any(w["name"] == node and w["killed"] < b + slack for _, b, node in runs for w in workers)
                if over and not unsaid and runs[-1][1] + slack < s0:
                    need(not times_listed, f"{at} lists task {i}, over since t={runs[-1][1]:.3f}", "over")
                    continue
                high += 1
                if s["to"] > s0 or over and runs[-1][1] < s1 + slack:
                    continue
                low += 1
                # where was it throughout?
                now = [r for r in runs if r[0] + slack <= s0 and r[1] >= s1]
                if now and not any(w["killed"] < now[0][1] + slack and w["name"] == now[0][2] for w in workers):
                    need(key in running, f"{at} does not show task {i} running", "running")
                    need(running[key].worker == now[0][2], f"{at}: task {i} is said to run on {running[key].worker}, not {now[0][2]}", "worker")
                    age = secs(snap.taken - running[key].started) - (s0 - now[0][0])
                    need(abs(age) < 2 * slack + 0.3, f"{at}: task {i} is said to run since {running[key].started}, it started at t={now[0][0]:.3f}", "since")
                    seen.hit("running")
                    seen.nontrivial = True
                if s["due"] > s1 + slack:
                    need(key in future, f"{at} does not list task {i}, due at t={s['due']:.3f}", "future")
                    seen.nontrivial = True
                    seen.hit("future")
                waits = [(a[1], b[0]) for a, b in zip(runs, runs[1:])]
                if any(a + slack < s0 and s1 < a + t["retry_delay"] - slack for a, b in waits):
                    need(key in future, f"{at} does not list task {i}, which is to be retried", "retry")
                    seen.hit("retry")
            if not any(t["as"] not in w["spec"]["knows"] for w in workers for t in case["tasks"]):
                need(low <= snap.total_tasks <= high, f"{at} counts {snap.total_tasks} tasks, there were {low} to {high}", "total")

            for what, listed, names in [("workers()", snap.workers, None), *((f"task_workers({n})", per_task[n], n) for n in NAMES)]:
                got = [x.name for x in listed]
                need(len(got) == len(set(got)), f"{at}: {what} lists {got}", "worker-twice")
                for w in workers:
                    if w["from"] is None or w["from"] > s0:
                        continue
                    able = names is None or names in w["spec"]["knows"]
                    if able and w["from"] + 4 * slack + 1 < s0 and s2 < w["leaving"]:
                        need(w["name"] in got, f"{at}: {what} does not list {w['name']}, running since t={w['from']:.3f}", "missing")
                        x = next(x for x in listed if x.name == w["name"])
                        need(x.tasks == w["tasks"], f"{at}: {what} says {w['name']} knows {x.tasks}, not {w['tasks']}", "tasks")
                        age = (snap.taken - x.last_seen).total_seconds()
                        need(age <= case["interval"] + 2 * slack, f"{at}: {w['name']} was last seen {age:.3f} s ago", "seen")
                        seen.hit("alive")
                    out = w["gone"] if w["spec"]["end"] != "kill" else w["killed"] + gone_after
                    if w["name"] in got:
                        need(able, f"{at}: {what} lists {w['name']}, which knows {w['tasks']}", "unable")
                        need(out + slack >= s0, f"{at}: {what} lists {w['name']}, gone by t={out:.3f}", "gone")
                    elif out < s0:
                        seen.hit("gone")
                need(set(got) <= {w["name"] for w in workers}, f"{at}: {what} lists {got}", "stranger")

        for w in workers:
            w["stop"].set()
            if w["killed"] == INF:
                await w["job"]

    simulate(case, main)


INF = float("inf")


# -- a long list -------------------------------------------------------------------
@st.composite
def crowds(draw, tier):
    return {"seed": draw(seeds), "lat": "zero", "later": draw(st.sampled_from([0, 3, 90, 101, 130, 300])), "now": draw(st.sampled_from([0, 5, 101, 140])),
            "running": draw(st.sampled_from([0, 0, 40, 120])), "workers": draw(st.sampled_from([0, 0, 1, 60, 110]))}


def run_crowd(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)

        async def work(i: int):
            await asyncio.sleep(10_000)

        lab.tasks = [work]
        keys: dict[str, set] = {"running": set(), "future": set()}
        ws = []
        async with lab.docket() as d:
            for i in range(case["running"]):
                keys["running"].add((await d.add(work, key=f"r{i}")(i)).key)
            if case["running"]:
                ws.append(lab.start_worker("busy", concurrency=case["running"]))
                await asyncio.sleep(5)
            for i in range(case["now"]):
                keys["future" if case["running"] or not case["workers"] else "running"].add((await d.add(work, key=f"n{i}")(i)).key)
            for i in range(case["later"]):
                keys["future"].add((await d.add(work, when=utcnow() + S(5000 + i), key=f"l{i}")(i)).key)
            names = {"busy"} if case["running"] else set()
            if not case["now"]:
                ws += [lab.start_worker(f"w{i}") for i in range(case["workers"])]
                names |= {f"w{i}" for i in range(case["workers"])}
            else:
                keys["future"] |= keys["running"] - {f"r{i}" for i in range(case["running"])}
                keys["running"] &= {f"r{i}" for i in range(case["running"])}
            await asyncio.sleep(5)
            snap = await d.snapshot()
            for what, listed in (("running", snap.running), ("future", snap.future)):
                got = [x.key for x in listed]
                need(len(got) == len(set(got)), f"{what}: a task is listed twice", "twice")
                need(set(got) == keys[what], f"{len(got)} tasks listed as {what}, of {len(keys[what])}; missing {sorted(keys[what] - set(got))[:3]}", "missing")
            need(snap.total_tasks == len(snap.running) + len(snap.future), f"a total of {snap.total_tasks}", "total")
            need({w.name for w in snap.workers} == names and len(snap.workers) == len(names), f"{len(snap.workers)} workers listed of {len(names)}", "workers")
            need({w.name for w in await d.task_workers("work")} == names, "workers by task", "workers")
            seen.nontrivial = len(keys["future"]) > 100 or len(keys["running"]) > 100 or len(names) > 100

    simulate(case, main)


PARTS = [Part("looks", cases, run, quick=400, thorough=20_000, rule="a task certainly running or waiting was listed"),
         Part("crowds", crowds, run_crowd, quick=24, thorough=300, rule="more than a hundred tasks or workers were there")]
