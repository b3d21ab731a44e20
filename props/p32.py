"""P32: the guarantees hold over every kind of Redis deployment that docket can be pointed at."""
from importlib import import_module
from typing import Annotated, Any

from hypothesis import strategies as st
from redis.exceptions import RedisClusterException, RedisError

from docket import ConcurrencyLimit, Cooldown, Debounce, Perpetual, RateLimit, Retry
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *

KINDS = ["redis", "hasty", "resp2", "cluster", "sentinel"]
LATENCIES = {"wan": "lan", "spiky": "zero"}


# -- the other properties, over real connections --------------------------------
AGAIN = {  # module: its parts, all of them if None
    "p01": ["crashes", "crashes", "crashes", "crowds"], "p03": None, "p04": None, "p05": None, "p06": None, "p07": None,
    "p08": ["timing"], "p09": None, "p10": None, "p11": None, "p13": None, "p14": ["crashes", "handoff", "handoff"],
    "p15": None, "p16": ["crashes"], "p17": None, "p18": None, "p19": None, "p20": None, "p21": None, "p22": None,
    "p23": None, "p24": None, "p25": None, "p26": None, "p27": None, "p28": None, "p29": None, "p31": None,
}
REVISITED: dict[str, Part] = {}
TURNS: list[str] = []
for _m, _names in AGAIN.items():
    _parts = {part.name: part for part in import_module(f"props.{_m}").PARTS}
    for _name in _names or _parts:
        REVISITED[f"{_m}-{_name}"] = _parts[_name]
        TURNS.append(f"{_m}-{_name}")


@st.composite
def revisits(draw, tier):
    name, kind = draw(st.sampled_from(TURNS)), draw(st.sampled_from(KINDS))
    case = {k: v for k, v in draw(REVISITED[name].strategy(tier)).items() if k != "unit"}
    if kind == "cluster" and "members" in case:  # a client of a cluster can't be opened while it is away
        case["members"] = [{**m, "outages": []} for m in case["members"]]
    lat = case.get("lat", "lan")
    return {**case, "revisit": name, "wire": kind, "lat": LATENCIES.get(lat, lat)}


def run_revisits(case: dict, seen: Seen) -> None:
    name = case["revisit"]
    try:
        REVISITED[name].run(case, seen)
    except Violation as v:
        raise Violation(f"{name} over {case['wire']}: {v}", f"{name}-{v.signature}") from v
    seen.labels = {case["wire"]: 1, name: 1}


def what_happens(kind: str) -> list[str]:
    return ["reset", "restart", "vanish", "flush"] + {"cluster": ["reshard", "clusterdown"], "sentinel": ["failover", "failover"]}.get(kind, [])


# -- servers that restart, fail over and move their slots -------------------------
@st.composite
def upheavals(draw, tier):
    kind = draw(st.sampled_from(KINDS))
    what = what_happens(kind)
    return {
        "seed": draw(seeds), "wire": kind, "lat": draw(st.sampled_from(["zero", "lan"])),
        "workers": draw(st.lists(st.sampled_from([1, 2, 10]), min_size=1, max_size=3)),
        "redelivery": draw(st.sampled_from([3, 8])),
        "events": draw(st.lists(st.fixed_dictionaries({
            "at": times(12, 0.05), "what": st.sampled_from(what), "len": st.sampled_from([0, 0.3, 1, 4])}),
            min_size=1, max_size=5 if tier == "thorough" else 3)),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": times(12, 0.05), "delay": st.sampled_from([0, 0, 0, 0.5, 3, 8]),
            "dur": st.sampled_from([0, 0, 0.1, 1, 5]), "fails": st.sampled_from([0, 0, 0, 1, 2]),
            "limited": st.booleans()}), min_size=1, max_size=10)),
    }


def run_upheavals(case: dict, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)

        async def work(token: int, dur: float, fails: int, retry: Retry = Retry(attempts=5, delay=S(0.5))):
            lab.rec("start", token=token)
            if dur:
                await asyncio.sleep(dur)
            if retry.attempt <= fails:
                raise ValueError("scripted failure")
            lab.rec("end", token=token)

        async def limited(token: int, dur: float, fails: int, group: Annotated[int, ConcurrencyLimit(1)] = 0,
                          retry: Retry = Retry(attempts=5, delay=S(0.5))):
            await work(token, dur, fails, retry)

        lab.tasks = [work, limited]
        for i, c in enumerate(case["workers"]):
            lab.start_worker(f"w{i}", restart_after=1, concurrency=c, redelivery_timeout=S(case["redelivery"]),
                             reconnection_delay=S(1))

        async def upheaval(e):
            await lab.until(e["at"])
            sim.net.shake(e["what"], e["len"])
            seen.hit(e["what"])

        async with lab.docket() as d:
            events = [asyncio.ensure_future(upheaval(e)) for e in case["events"]]
            for i, t in sorted(enumerate(case["tasks"]), key=lambda p: p[1]["at"]):
                await lab.until(t["at"])
                when = utcnow() + S(t["delay"])
                for attempt in range(40):
                    try:
                        await d.add(limited if t["limited"] else work, when=when, key=K(case, i))(i, t["dur"], t["fails"])
                        break
                    except (RedisError, RedisClusterException, OSError):
                        seen.hit("client-lost")
                        await asyncio.sleep(0.5)
                else:
                    need(False, f"task {i} can't be added {attempt} attempts after the last upheaval", "client")
            await asyncio.gather(*events)

            def finished():
                return len({e["token"] for e in lab.of("end")}) == len(case["tasks"]) and lab.backlog() == (0, 0)

            ok = await lab.quiesce(finished, limit=400, step=1.0)
            missing = sorted(set(range(len(case["tasks"]))) - {e["token"] for e in lab.of("end")})
            need(not missing, f"accepted tasks never ran to their end: {missing}", "lost")
            need(ok, f"messages left behind after everything ran: (stream, queue)={lab.backlog()}", "left-behind")
            for i in range(len(case["tasks"])):
                state = lab.stored_state(K(case, i))
                need(state in ("completed", "failed"), f"task {i} ended but its recorded state is {state}", "state")
            seen.hit(case["wire"])
            for e in case["events"]:
                if any(a["t"] <= e["at"] <= b["t"] for a in lab.of("start") for b in lab.of("end") if a["token"] == b["token"]):
                    seen.nontrivial = True

    simulate(case, main)


@st.composite
def silences(draw, tier):
    kind = draw(st.sampled_from(KINDS))
    return {
        "seed": draw(seeds), "wire": kind, "lat": draw(st.sampled_from(["zero", "lan"])),
        "workers": draw(st.integers(1, 2)), "again": draw(st.sampled_from([0.5, 2, 5])),
        "events": draw(st.lists(st.fixed_dictionaries({
            "at": times(30, 0.05), "what": st.sampled_from(what_happens(kind)), "len": st.sampled_from([0, 0.3, 1, 4, 7, 20])}),
            min_size=1, max_size=4)),
        "tasks": draw(st.integers(1, 3)),
    }


def run_silences(case: dict, seen: Seen) -> None:
    """Whatever happens to the servers, workers with nothing to do are still there when it is over."""
    async def main(sim):
        lab = Lab(sim)

        async def work(token: int):
            lab.rec("end", token=token)

        async def limited(group: Annotated[int, ConcurrencyLimit(1)], token: int):
            lab.rec("end", token=token)

        async def long(token: int):
            lab.rec("started", token=token)
            await asyncio.sleep(500)
            lab.rec("end", token=token)

        async def ticking(perpetual: Perpetual = Perpetual(every=S(60), automatic=True)):
            lab.rec("tick")

        lab.tasks = [work, limited, long, ticking]
        for i in range(case["workers"]):
            lab.start_worker(f"w{i}", restart_after=None, reconnection_delay=S(case["again"]), concurrency=10)
        await asyncio.sleep(1)
        for e in sorted(case["events"], key=lambda e: e["at"]):
            await lab.until(1 + e["at"])
            sim.net.shake(e["what"], e["len"])
            seen.hit(e["what"])
            if e["what"] == "reset" or e["len"] > case["again"]:
                seen.nontrivial = True
        await lab.until(1 + 30 + 45)
        need(not lab.worker_ends, f"idle workers ended: {lab.worker_ends}", "worker-ended")
        need(len(lab.of("tick")) == 2, f"a task due every minute ran {len(lab.of('tick'))} times in 76 s", "ticks")
        async with lab.docket() as d:
            for i in range(case["tasks"]):
                await d.add(work, key=K(case, i))(i)
                await d.add(limited)(1, 100 + i)
            await d.add(long, key="long")(0)
            n = 2 * case["tasks"]
            ok = await lab.quiesce(lambda: len(lab.of("end")) == n and lab.of("started"), limit=20, step=1.0)
            need(ok, f"{len(lab.of('end'))} of {n} tasks ran in 20 s after it was over", "stuck")
            await d.cancel("long")
            ok = await lab.quiesce(lambda: lab.backlog() == (0, 1), limit=20, step=1.0)  # the ticking one is waiting
            need(ok, f"a running task wasn't cancelled in 20 s after it was over: {lab.backlog()}", "deaf")
            later = await d.add(limited, when=utcnow() + S(1))(2, 200)
            need(later.disposition.value == "scheduled", f"refused: {later.disposition}", "refused")
            await asyncio.sleep(5)
            need(lab.of("end", token=200), "a task due a second later didn't run in 5 s", "stuck")
        need(not lab.worker_ends, f"workers ended: {lab.worker_ends}", "worker-ended")
        seen.hit(case["wire"])

    simulate(case, main)


# -- what the names of dockets, scopes and values are made of ----------------------
VALUES: list[Any] = ["a", "b", "", "{}", "{", "}", "}{", "{a}", "a{b}c", "{a}{b}", "x:y", "é", " ", "*", "[a]", 1, None, True, {}, {"a": 1}, [], [1, {}], (), "winner"]
SCOPES = [None, None, "scope", "a:b", "{s}", "s{t}", "s p", "é"]
NAMES = ["d", "my-docket", "{d}", "team:docket", "d{1}", "dócket", "d e"]
HOW = ["cooldown", "debounce", "drop", "limit"]


@st.composite
def labelled(draw, tier):
    return {
        "seed": draw(seeds), "wire": draw(st.sampled_from([None, "redis", "resp2", "sentinel", "cluster", "cluster", "cluster"])), "lat": "zero",
        "name": draw(st.sampled_from(NAMES)), "scope": draw(st.sampled_from(SCOPES)),
        "values": draw(st.lists(st.integers(0, len(VALUES) - 1), min_size=1, max_size=4, unique_by=lambda i: str(VALUES[i]))),
        "how": draw(st.lists(st.sampled_from(HOW), min_size=1, max_size=2, unique=True)),
        "each": draw(st.integers(1, 3)), "workers": draw(st.integers(1, 2)),
    }


def run_labelled(case: dict, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim, name=case["name"])
        scope, running, most = case["scope"], {}, {}

        def begin(task: str, value: Any, n: int) -> tuple:
            lab.rec("run", task=task, value=repr(value), n=n)
            return task, repr(value)

        async def cooldown(value: Annotated[Any, Cooldown(S(200), scope=scope)], n: int):
            begin("cooldown", value, n)

        async def debounce(value: Annotated[Any, Debounce(S(3), scope=scope)], n: int):
            begin("debounce", value, n)

        async def drop(value: Annotated[Any, RateLimit(1, per=S(200), drop=True, scope=scope)], n: int):
            begin("drop", value, n)

        async def limit(value: Annotated[Any, ConcurrencyLimit(1, scope=scope)], n: int):
            x = begin("limit", value, n)
            running[x] = running.get(x, 0) + 1
            most[x] = max(most.get(x, 0), running[x])
            await asyncio.sleep(1)
            running[x] -= 1

        tasks = {f.__name__: f for f in (cooldown, debounce, drop, limit)}
        lab.tasks = list(tasks.values())
        for i in range(case["workers"]):
            lab.start_worker(f"w{i}", restart_after=None)
        async with lab.docket() as d:
            await asyncio.sleep(1)
            for n in range(case["each"]):
                for how in case["how"]:
                    for v in case["values"]:
                        await d.add(tasks[how])(VALUES[v], n)
                        await asyncio.sleep(0.01)
            ok = await lab.quiesce(lambda: lab.backlog() == (0, 0), limit=60, step=1.0)
            need(not lab.worker_ends, f"a worker ended: {lab.worker_ends}", "worker-ended")
            need(ok, f"messages left behind: {lab.backlog()}", "left-behind")
            await asyncio.sleep(3)
            for how in case["how"]:
                for v in case["values"]:
                    ran = lab.of("run", task=how, value=repr(VALUES[v]))
                    want = case["each"] if how == "limit" else 1
                    need(len(ran) == want, f"{how} of {VALUES[v]!r} in {case['name']!r} (scope {scope!r}): {case['each']} "
                         f"asked, {len(ran)} ran, {want} should have", "runs")
            crowded = {k: n for k, n in most.items() if n > 1}
            need(not crowded, f"more at once than the limit of 1: {crowded}", "limit")
            for label in [str(case["wire"]), *case["how"]]:
                seen.hit(label)
            if case["each"] > 1 or len(case["values"]) > 1:
                seen.nontrivial = True

    simulate(case, main)


PARTS = [
    Part("upheavals", upheavals, run_upheavals, quick=150, thorough=8000, rule="something happened to the servers while a task was running"),
    Part("silences", silences, run_silences, quick=150, thorough=5000, rule="the servers were away for longer than the pause between two attempts to reconnect"),
    Part("names", labelled, run_labelled, quick=150, thorough=5000, rule="several calls shared a scope, or several values did"),
    Part("again", revisits, run_revisits, quick=400, thorough=20000, rule="non-trivial by the rule of the property looked at again"),
]
