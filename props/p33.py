"""P33: the command line shows what is on a docket, and does to it what it is told."""
import contextlib
import operator
import re
import uuid
from datetime import datetime, timedelta
from decimal import Decimal

import rich.live
from hypothesis import strategies as st
from rich.console import Console

from docket import Docket, Retry, TaskKey, Worker
from docket.dependencies import CurrentExecution, CurrentWorker
from docket.execution import Execution, ExecutionProgress
from docket.dependencies import Progress as ProgressDep
from vlib.cli import docket_cli
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *

INF = float("inf")

# names of dockets, workers and keys are the users' own: some mean something to the library that draws the tables
WORDS = ["d", "emails", "[b]", "[/]", "[/red]x", "a:key:b", ":warning:", "[link=x]y", "\\[a]", "back\\", "x[", "[bold red]hot", "{0}", "%s", "é✓", "*"]
TEXTS = ["boom", "[/]", "no [key] given", "[red]x[/red]", ":boom: it", "path\\", "50% {done}", "a:b: c", "[/bold]"]
words = st.sampled_from(WORDS)
texts = st.sampled_from(TEXTS)

SEEN_BY: list = []  # the lab that the tasks of the collections below report to


def squash(s: str) -> str:
    return re.sub(r"\s+", "", s)


def has(out: str, text: str) -> bool:
    return squash(text) in squash(out)


def quiet(ran, what: str) -> None:
    need(ran.code == 0, f"docket {what}: exit status {ran.code}, {ran.exc!r}: {ran.out[-300:]}", "status")


# -- snapshot, workers ls, workers for-task ---------------------------------------
FNS = ["fetch", "send", "[b]", ":key:", "[/x]"]


@st.composite
def looks(draw, tier):
    return {
        "seed": draw(seeds), "wire": "redis", "lat": "lan", "name": draw(words), "stats": draw(st.booleans()),
        "fns": draw(st.lists(st.sampled_from(FNS), min_size=1, max_size=3, unique=True)),
        "workers": draw(st.lists(st.fixed_dictionaries({"name": words, "concurrency": st.integers(1, 3), "all": st.booleans(),
                                                        "end": st.sampled_from([0, 0, 0, 1, 2])}), max_size=3, unique_by=lambda w: w["name"])),
        "tasks": draw(st.lists(st.fixed_dictionaries({"fn": st.integers(0, 2), "style": words, "due": st.sampled_from([0, 0, 0, 3, 40, 1799, 3600, 90_000]),
                                                      "short": st.booleans()}), max_size=7)),
        "at": draw(st.sampled_from([2.5, 5.5, 5.5, 30.5])),
    }


def told(cell: str, now: float) -> float | None:
    """When a time in a table is, on the virtual clock that reads ``now``."""
    if m := re.fullmatch(r"at (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d{4})", cell):
        return now + (datetime.strptime(m[1], "%Y-%m-%d %H:%M:%S %z") - utcnow()).total_seconds()
    if m := re.fullmatch(r"(in )?(?:(\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)( ago)?", cell):
        d = int(m[2] or 0) * 86400 + int(m[3]) * 3600 + int(m[4]) * 60 + float(m[5])
        return now + d if m[1] else now - d
    return None


def run_looks(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim, name=case["name"], heartbeat_interval=S(1), missed_heartbeats=3)
        fns = case["fns"]

        async def work(i: int):
            lab.rec("start", i=i, worker=sim_name())
            await asyncio.sleep(0.1 if case["tasks"][i]["short"] else 5000)
            lab.rec("end", i=i)

        def sim_name() -> str:
            from vlib.sim import current_node
            return current_node().name

        dead = set()

        async def worker(w):
            async with lab.docket([]) as d:
                for f in fns if w["all"] else fns[:1]:
                    d.register(work, [f])
                async with Worker(d, name=w["name"], concurrency=w["concurrency"], scheduling_resolution=S(0.1), minimum_check_interval=S(0.1)) as it:
                    run = asyncio.ensure_future(it.run_forever())
                    if w["end"] == 1:
                        await lab.until(4)
                        run.cancel()
                        dead.add(w["name"])
                    elif w["end"] == 2:
                        await lab.until(4)
                        dead.add(w["name"])
                        sim.node(w["name"]).kill()
                    with contextlib.suppress(asyncio.CancelledError):
                        await run

        for w in case["workers"]:
            if w["end"] == 1 and any(not t["short"] for t in case["tasks"]):
                w["end"] = 2  # stopping would wait for what is running
            sim.node(w["name"]).spawn(worker(w))
        everyone = all(w["all"] for w in case["workers"])
        keys, due = {}, {}
        async with lab.docket([]) as d:
            await lab.until(2)
            for i, t in enumerate(case["tasks"]):
                fn = fns[t["fn"] % len(fns)] if everyone else fns[0]
                keys[i] = f"{i}{t['style']}"
                d.register(work, [fn])
                await d.add(fn, lab.when(2 + t["due"]) if t["due"] else None, keys[i])(i)
                due[i] = sim.now() if not t["due"] else 2 + t["due"]
                t["name"] = fn
        await lab.until(case["at"])
        ended = {e["i"] for e in lab.of("end")}
        running = {e["i"]: e for e in lab.of("start") if e["i"] not in ended}
        waiting = [i for i in keys if i not in ended and i not in running]
        now = sim.now()
        alive = [w for w in case["workers"] if w["name"] not in dead or w["end"] == 2 and now < 7.5]
        certain = not any(w["end"] for w in case["workers"]) or now < 4 or now > 10

        # the snapshot
        args = ["snapshot", "--docket", case["name"], *(["--stats"] if case["stats"] else [])]
        ran = await docket_cli(sim, *args)
        quiet(ran, " ".join(args))
        need(ran.ended - ran.began < 2, f"docket snapshot took {ran.ended - ran.began}s", "slow")
        need(f"{len(running)}/{len(running) + len(waiting)} running" in ran.out, f"{len(running)} of {len(running) + len(waiting)} tasks are running: {ran.out[:400]}", "summary")
        if certain:
            need(f"{len(alive)} workers" in ran.out, f"{len(alive)} workers are there: {ran.out[:400]}", "summary-workers")
        need(has(ran.out, repr(case["name"])), f"the docket {case['name']!r} isn't named: {ran.out[:300]}", "docket-name")
        rows = ran.cells()
        shown = {}
        for row in rows:
            for i, key in keys.items():
                if key in row:
                    need(i not in shown, f"{key!r} is shown twice", "twice")
                    shown[i] = row
        missing = [keys[i] for i in [*running, *waiting] if i not in shown]
        need(not missing, f"{missing} are on the docket but aren't shown: {ran.out[:1500]}", "missing")
        extra = [keys[i] for i in shown if i in ended]
        need(not extra, f"{extra} are over but shown", "extra")
        for i, row in shown.items():
            need(case["tasks"][i]["name"] in row, f"{keys[i]!r} runs {case['tasks'][i]['name']!r}: {row}", "function")
            when = [t for t in (told(c, now) for c in row) if t is not None]
            need(any(abs(t - due[i]) < 1.5 for t in when), f"{keys[i]!r} is due at {due[i]}, now {now}: {row}", "when")
            if i in running:
                need(running[i]["worker"] in row, f"{keys[i]!r} runs on {running[i]['worker']!r}: {row}", "worker")
                need(any(abs(t - running[i]["t"]) < 1.5 for t in when), f"{keys[i]!r} started at {running[i]['t']}, now {now}: {row}", "started")
            else:
                need(len(when) == 1, f"{keys[i]!r} hasn't started: {row}", "not-started")
        if case["stats"] and shown:
            for f in {t["name"] for t in case["tasks"]}:
                n = sum(case["tasks"][i]["name"] == f for i in running)
                q = sum(case["tasks"][i]["name"] == f for i in waiting)
                if n + q:
                    stats = [row for row in rows if f in row and [str(n + q), str(n), str(q)] == row[row.index(f) + 1:row.index(f) + 4]]
                    need(stats, f"{f!r}: {n + q} in all, {n} running, {q} waiting: {ran.out[-1500:]}", "stats")
                    mine = [due[i] for i in waiting if case["tasks"][i]["name"] == f]
                    ends = [told(c, now) for c in stats[0][stats[0].index(f) + 4:] if c]
                    need(not mine and not ends or mine and len(ends) == 2 and abs(ends[0] - min(mine)) < 1.5 and abs(ends[1] - max(mine)) < 1.5,
                         f"{f!r} waits since {mine}, now {now}: {stats[0]}", "stats-times")
                    seen.hit("stats")
        # the workers
        if certain:
            for asked in [None, *fns]:
                args = ["workers", "for-task", "--docket", case["name"], "--", asked] if asked else ["workers", "ls", "--docket", case["name"]]
                ran = await docket_cli(sim, *args)
                quiet(ran, " ".join(args))
                need(has(ran.out, case["name"]), f"the docket {case['name']!r} isn't named: {ran.out[:300]}", "docket-name")
                rows = ran.cells()
                for w in case["workers"]:
                    knows = fns if w["all"] else fns[:1]
                    mine = [r for r in rows if w["name"] in r[:2]]
                    want = w in alive and (asked is None or asked in knows)
                    need(bool(mine) == want, f"docket {' '.join(args)}: {w['name']!r} knows {knows}, is {'there' if w in alive else 'gone'}: {ran.out}", "workers")
                    if want:
                        need(all(any(f in r for r in rows) for f in knows), f"{w['name']!r} knows {knows}: {ran.out}", "worker-tasks")
            seen.hit("workers")
        if len(running) and len(waiting):
            seen.nontrivial = True

    simulate(case, main)


# -- watch ---------------------------------------------------------------------
@st.composite
def watches(draw, tier):
    return {
        "seed": draw(seeds), "wire": draw(st.sampled_from(["redis", "redis", "cluster", "sentinel"])), "lat": draw(st.sampled_from(["zero", "lan", "lan", "wan"])),
        "name": draw(words), "key": draw(words), "worker": draw(words),
        "due": draw(st.sampled_from([0, 0, 2, 5, 9])), "dur": draw(st.sampled_from([0, 0.2, 1, 2.5, 6, 20])),
        "fails": draw(st.sampled_from([0, 0, 1, 2])), "outcome": draw(st.sampled_from(["ok", "ok", "fail", "fail", "cancel", "none"])),
        "text": draw(texts), "again": draw(st.sampled_from([0, 1.5, 6])),
        "cancel_at": draw(times(12, 0.5)),
        "steps": draw(st.lists(st.fixed_dictionaries({"at": times(6, 0.25), "by": st.integers(1, 40), "message": st.one_of(st.none(), texts)}), max_size=4)),
        "total": draw(st.sampled_from([0, 10, 100, 37])),
        "watch": draw(st.one_of(times(8, 0.5), times(40, 1.0))),
    }


def run_watches(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim, name=case["name"])
        key = f"k{case['key']}"
        steps = sorted(case["steps"], key=lambda s: s["at"])

        async def work(retry: Retry = Retry(attempts=3), progress: ExecutionProgress = ProgressDep()):
            retry.delay = S(case["again"])
            lab.rec("start", attempt=retry.attempt)
            began = sim.now()
            try:
                if case["total"]:
                    await progress.set_total(case["total"])
                at = 0
                for s in steps:
                    if s["at"] > case["dur"]:
                        break
                    await lab.until(began + s["at"])
                    if s["message"] is not None:
                        await progress.set_message(s["message"])
                    await progress.increment(s["by"])
                    at += s["by"]
                    lab.rec("step", at=at, message=s["message"])
                await lab.until(began + case["dur"])
                if case["outcome"] == "fail" or retry.attempt <= case["fails"]:
                    raise ValueError(case["text"])
            finally:
                lab.rec("end", attempt=retry.attempt)

        lab.tasks = [work]
        w = lab.start_worker(case["worker"], scheduling_resolution=S(0.1), minimum_check_interval=S(0.1)) if case["outcome"] != "none" else None
        frames: list[tuple[float, str]] = []
        update = rich.live.Live.update

        def noted(live, renderable, *a, **k):
            console = Console(width=2000, height=60, file=None)
            with console.capture() as capture:
                console.print(renderable)
            frames.append((sim.now(), capture.get()))
            return update(live, renderable, *a, **k)

        over: list[tuple[float, str]] = []

        async def follow():
            """When the task was over, as another client sees it."""
            async with lab.docket() as d:
                while not over:
                    ex = await d.get_execution(key)
                    if ex is not None:
                        await ex.sync()
                        if ex.state.value in ("completed", "failed", "cancelled"):
                            over.append((sim.now(), ex.state.value))
                            lab.rec("over", state=ex.state.value, error=ex.error)
                    await asyncio.sleep(0.1)

        async with lab.docket() as d:
            await lab.until(3)
            await d.add(work, lab.when(3 + case["due"]) if case["due"] else None, key)()
            following = sim.node("follower", "zero").spawn(follow())

            async def cancel():
                await lab.until(3 + case["cancel_at"])
                await d.cancel(key)

            if case["outcome"] in ("cancel", "none"):
                cancelling = asyncio.ensure_future(cancel())
            await lab.until(3.3 + case["watch"])
            began = sim.now()
            rich.live.Live.update = noted
            try:
                ran = await docket_cli(sim, "watch", "--docket", case["name"], key, limit=120)
            finally:
                rich.live.Live.update = update
            quiet(ran, f"watch {key!r}")
            await lab.quiesce(lambda: bool(over), limit=0.5 + SLACK[case["lat"]], step=0.1)
            need(over, f"the watch ended at {ran.ended} but the task isn't over: {ran.out}", "early")
            t, state = over[0]
            need(ran.ended <= max(began, t) + 3 + SLACK[case["lat"]], f"the task was over at {t}, the watch that began at {began} ended at {ran.ended}", "late")
            need(has(ran.out, key), f"the key {key!r} isn't shown: {ran.out}", "key")
            need(has(ran.out, case["name"]), f"the docket {case['name']!r} isn't shown: {ran.out}", "docket-name")
            states = re.findall(r"State:\s*(\w+)", ran.out)
            need(states[-1:] == [state.upper()], f"the task is {state}, the watch shows {states}: {ran.out}", "state")
            if state != "cancelled":
                need(re.search(r"Worker:\s*" + re.escape(case["worker"]), ran.out), f"worker {case['worker']!r} isn't shown: {ran.out}", "worker")
            if state == "failed":
                error = lab.of("over")[0]["error"]
                need(case["text"] in (error or ""), f"the error of {case['text']!r} is {error!r}", "recorded-error")
                need(has(ran.out, error), f"the error {error!r} isn't shown: {ran.out}", "error")
            else:
                need("Error:" not in ran.out or lab.of("start")[1:], f"the task is {state}: {ran.out}", "no-error")
            # what it showed on the way
            heard = [e for e in lab.of("step") if began + 3 < e["t"]]
            starts = lab.of("start")
            if heard and case["total"] and state != "cancelled":
                last = heard[-1]
                percent = min(100, round(100 * last["at"] / case["total"]))
                shown = re.findall(r"(\d+)%", ran.out.replace(case["text"], ""))
                need(shown and abs(int(shown[-1]) - percent) <= 1, f"{last['at']} of {case['total']} done, shown {shown}: {ran.out}", "progress")
                message = [e["message"] for e in lab.of("step") if e["message"] is not None and e["t"] >= starts[-1]["t"]][-1:]
                if message and last["t"] >= starts[-1]["t"]:
                    need(has(ran.out, message[0]), f"message {message[0]!r} isn't shown: {ran.out}", "message")
                seen.hit("progress")
            if frames:
                for s in starts:
                    ends = [e["t"] for e in lab.of("end", attempt=s["attempt"])] or [INF]
                    if s["t"] > began + 1 and ends[0] - s["t"] > 4:
                        need(any(s["t"] - 0.5 <= ft <= s["t"] + 3 and re.search(r"State:\s*RUNNING", f) for ft, f in frames),
                             f"it ran from {s['t']} to {ends[0]}: {[(ft, re.findall(r'State:.*', f)) for ft, f in frames]}", "running-shown")
                        seen.hit("saw-running")
            seen.hit(state)
            seen.hit("before" if began < t else "after")
            if t > began + 3:
                seen.nontrivial = True
            ran = await docket_cli(sim, "watch", "--docket", case["name"], f"no{key}", limit=120)
            quiet(ran, "watch of a key that isn't there")
            need("not found" in ran.out and has(ran.out, f"no{key}"), f"watch of no{key!r}: {ran.out}", "unknown")
            following.cancel()
        if w:
            await close_all(w)

    simulate(case, main)


# -- strike and restore -----------------------------------------------------------
TYPED = {  # as written on the command line: what it means
    "": "", "a": "a", "42": "42", "int:42": 42, "int:-3": -3, "float:1.5": 1.5, "float:42": 42.0, "bool:true": True, "bool:False": False,
    "decimal.Decimal:1.5": Decimal("1.5"), "datetime.timedelta:10": timedelta(seconds=10), "str:a": "a", "str:a:b": "a:b", "str:http://x/?a=b": "http://x/?a=b",
    "uuid.UUID:123e4567-e89b-12d3-a456-426614174000": uuid.UUID("123e4567-e89b-12d3-a456-426614174000"),
    "uuid.UUID:urn:uuid:123e4567-e89b-12d3-a456-426614174000": uuid.UUID("123e4567-e89b-12d3-a456-426614174000"),
    "str::": ":", "str:": "", "str:[x]": "[x]", None: None,
}
PY = {"==": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le}
GIVEN = list(TYPED)


@st.composite
def orders(draw, tier):
    fns = ["one", "two"]
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        kind = draw(st.sampled_from(["strike", "strike", "restore"]))
        old = [o for o in ops if o["op"] == "strike"]
        if kind == "restore" and old and draw(st.integers(0, 3)):
            ops.append({**draw(st.sampled_from(old)), "op": "restore"})
            continue
        fn = draw(st.sampled_from([*fns, "*", ""]))
        param = draw(st.sampled_from(["a", "b"])) if fn in ("*", "") else draw(st.sampled_from(["a", "a", "b", "*", None]))
        ops.append({"op": kind, "fn": fn, "param": param, "rule": draw(st.sampled_from(["==", "==", *PY])), "v": draw(st.integers(0, len(GIVEN) - 1)),
                    "env": draw(st.booleans())})
    return {"seed": draw(seeds), "wire": draw(st.sampled_from(["redis", "cluster"])), "lat": "lan", "name": draw(words), "ops": ops,
            "calls": draw(st.lists(st.fixed_dictionaries({"fn": st.sampled_from(fns), "a": st.integers(0, len(GIVEN) - 1), "b": st.integers(0, len(GIVEN) - 1)}),
                                   min_size=1, max_size=8))}


def run_orders(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim, name=case["name"])

        async def one(a, b, key: str = TaskKey()):
            lab.rec("ran", key=key)

        async def two(a, b, key: str = TaskKey()):
            lab.rec("ran", key=key)

        lab.tasks = [one, two]
        rules: list = []

        def struck(fn, kw):
            for rfn, param, rule, v in rules:
                if rfn is not None and rfn != fn:
                    continue
                if param is None:
                    return True
                with contextlib.suppress(TypeError, ValueError):
                    if PY[rule](kw[param], v):
                        return True
            return False

        w = lab.start_worker("w", scheduling_resolution=S(0.1), minimum_check_interval=S(0.1))
        async with lab.docket() as d:
            await asyncio.sleep(1)
            for n, o in enumerate(case["ops"]):
                param = None if o["param"] in ("*", None) else o["param"]
                v = TYPED[GIVEN[o["v"]]]
                args = [o["op"]]
                env = {"DOCKET_NAME": case["name"]} if o["env"] else {}
                args += [] if o["env"] else ["--docket", case["name"]]
                args += ["--", o["fn"], *([o["param"]] if o["param"] is not None else [])]
                if param:
                    args += [o["rule"], *([GIVEN[o["v"]]] if GIVEN[o["v"]] is not None else [])]
                ran = await docket_cli(sim, *args, env=env)
                quiet(ran, " ".join(args))
                r = (o["fn"] if o["fn"] not in ("*", "") else None, param, o["rule"] if param else None, v if param else None)
                rules = [x for x in rules if x != r]
                if o["op"] == "strike":
                    rules.append(r)
                seen.hit(o["op"])
                await asyncio.sleep(0.5)
                want = {}
                for i, c in enumerate(case["calls"]):
                    kw = {"a": TYPED[GIVEN[c["a"]]], "b": TYPED[GIVEN[c["b"]]]}
                    k = f"{n}-{i}"
                    await d.add(c["fn"], key=k)(**kw)
                    want[k] = not struck(c["fn"], kw)
                    if not want[k]:
                        seen.nontrivial = True
                await lab.quiesce(lambda: lab.backlog() == (0, 0), limit=20)
                await asyncio.sleep(0.3)
                got = {k: bool(lab.of("ran", key=k)) for k in want}
                wrong = {(k, str(case["calls"][int(k.split("-")[1])])): got[k] for k in want if got[k] != want[k]}
                need(not wrong, f"after docket {' '.join(args)} the rules are {rules}: ran or not, wrongly: {wrong}", "decision")
        await close_all(w)

    simulate(case, main)


# -- tasks, clear, worker ---------------------------------------------------------
async def note(i: int, seconds: float = 0.0, key: str = TaskKey(), worker: Worker = CurrentWorker()) -> None:
    lab = SEEN_BY[-1]
    lab.rec("start", i=i, key=key, worker=worker.name)
    await asyncio.sleep(seconds)
    lab.rec("end", i=i, key=key, worker=worker.name)


async def other(i: int, key: str = TaskKey(), worker: Worker = CurrentWorker()) -> None:
    SEEN_BY[-1].rec("start", i=i, key=key, worker=worker.name, other=True)


async def rescue(*args, execution: Execution = CurrentExecution(), worker: Worker = CurrentWorker(), **kwargs) -> None:
    SEEN_BY[-1].rec("rescued", name=execution.function_name, args=args, kwargs=kwargs, key=execution.key, worker=worker.name)


NOTES = [note]
OTHERS = [other]

SPANS = st.one_of(
    st.integers(0, 200).map(lambda n: [str(n), n]), st.integers(0, 5000).map(lambda n: [f"{n}ms", n / 1000]),
    st.integers(0, 90).map(lambda n: [f"{n}s", n]), st.integers(0, 90).map(lambda n: [f"{n}m", n * 60]), st.integers(0, 30).map(lambda n: [f"{n}h", n * 3600]),
    st.tuples(st.integers(0, 80), st.integers(0, 59)).map(lambda p: ["%02d:%02d" % p, p[0] * 60 + p[1]]),
    st.tuples(st.integers(0, 30), st.integers(0, 59), st.integers(0, 59)).map(lambda p: ["%02d:%02d:%02d" % p, p[0] * 3600 + p[1] * 60 + p[2]]),
)
POSITIVE = SPANS.filter(lambda s: s[1] > 0.05)


@st.composite
def chores(draw, tier):
    return {
        "seed": draw(seeds), "wire": draw(st.sampled_from(["redis", "redis", "cluster"])), "lat": "lan", "name": draw(words),
        "builtin": draw(st.lists(st.fixed_dictionaries({"what": st.sampled_from(["trace", "fail", "sleep"]), "delay": st.one_of(st.none(), SPANS), "text": texts,
                                                        "seconds": st.sampled_from([0, 0.5, 2])}), max_size=4)),
        "notes": draw(st.lists(st.fixed_dictionaries({"delay": st.sampled_from([0, 0, 0, 2, 30]), "seconds": st.sampled_from([0, 1, 3]),
                                                      "fn": st.sampled_from(["note", "note", "note", "other", "unheard"])}), max_size=8)),
        "clear": draw(st.booleans()),
        "worker": {"name": draw(words), "concurrency": draw(st.integers(1, 4)), "by": draw(st.sampled_from(["option", "env"])),
                   "tasks": draw(st.sampled_from([["props.p33:NOTES"], ["props.p33:NOTES", "props.p33:OTHERS"]])), "fallback": draw(st.booleans()),
                   "spans": {k: draw(st.one_of(st.none(), POSITIVE if k.startswith("re") else POSITIVE.filter(lambda s: s[1] < 100))) for k in ("redelivery-timeout", "reconnection-delay", "minimum-check-interval", "scheduling-resolution")}},
    }


def run_chores(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim, name=case["name"])
        SEEN_BY[:] = [lab]
        where = ["--docket", case["name"]]
        wanted: dict[str, tuple] = {}
        await lab.until(1)
        for b in case["builtin"]:
            arg = str(b["seconds"]) if b["what"] == "sleep" else b["text"]
            t0 = sim.now()
            ran = await docket_cli(sim, "tasks", b["what"], *where, *(["--delay", b["delay"][0]] if b["delay"] else []), "--", arg)
            quiet(ran, f"tasks {b['what']}")
            span = b["delay"][1] if b["delay"] else 0
            async with lab.docket([]) as d:
                snap = await d.snapshot()
                new = [e for e in [*snap.running, *snap.future] if e.key not in wanted]
                need(len(new) == 1, f"docket tasks {b['what']} added {new}", "added")
                ex = new[0]
                due = t0 + (ex.when - lab.when(t0)).total_seconds()
                need(abs(due - t0 - span) < 1, f"--delay {b['delay']}: due after {due - t0}s", "delay")
                need((ex.function_name, ex.args, ex.kwargs) in [(b["what"], (x,), {}) for x in (arg, *([b["seconds"]] if b["what"] == "sleep" else []))],
                     f"docket tasks {b['what']} {arg!r} added {ex.function_name}{ex.args}{ex.kwargs}", "call")
                need(ex.key in ran.out, f"the key {ex.key} isn't shown: {ran.out}", "key")
                wanted[ex.key] = (b["what"], due)
        n = len(case["builtin"])
        if case["clear"]:
            ran = await docket_cli(sim, "clear", *where)
            quiet(ran, "clear")
            need(re.search(rf"\b{n} tasks", ran.out), f"{n} tasks were there: {ran.out}", "cleared")
            need(lab.backlog() == (0, 0), f"after docket clear: {lab.backlog()}", "clear")
            seen.hit("clear")
        else:
            due = [x for _, x in wanted.values()]
            if any(x > sim.now() + 300 for x in due):
                ran = await docket_cli(sim, "clear", *where)  # (the worker below works until all is done)
                wanted.clear()
        async with lab.docket([note, other]) as d:
            async def unheard(i): ...
            d.register(unheard)
            for i, t in enumerate(case["notes"]):
                when = lab.when(sim.now() + t["delay"]) if t["delay"] else None
                await d.add(t["fn"], when, f"n{i}")(i, *([t["seconds"]] if t["fn"] == "note" else []))
        w = case["worker"]
        made: list[dict] = []
        init = Worker.__init__

        def noted(self, *a, **k):
            made.append(k)
            return init(self, *a, **k)

        given = {"name": ("DOCKET_WORKER_NAME", w["name"]), "concurrency": ("DOCKET_WORKER_CONCURRENCY", str(w["concurrency"])),
                 **{k: ("DOCKET_WORKER_" + k.upper().replace("-", "_"), v[0]) for k, v in w["spans"].items() if v}}
        if w["fallback"]:
            given["fallback-task"] = ("DOCKET_FALLBACK_TASK", "props.p33:rescue")
        env, args = {}, ["worker", "--until-finished", "--logging-level", "CRITICAL"]
        if w["by"] == "env":
            env = {**dict(given.values()), "DOCKET_NAME": case["name"], "DOCKET_TASKS": " ".join(w["tasks"])}
        else:
            args += [x for k, (_, v) in given.items() for x in (f"--{k}", v)] + where + [x for t in w["tasks"] for x in ("--tasks", t)]
        Worker.__init__ = noted
        try:
            ran = await docket_cli(sim, *args, env=env, limit=20_000)
        finally:
            Worker.__init__ = init
        quiet(ran, "worker")
        known = {"note", *(["other"] if len(w["tasks"]) > 1 else [])}
        for i, t in enumerate(case["notes"]):
            starts = lab.of("start", i=i)
            if t["fn"] in known:
                need(len(starts) == 1 and (t["fn"] != "note" or lab.of("end", i=i)), f"{t} ran {len(starts)} times: {lab.events}", "ran")
                need(starts[0]["worker"] == w["name"], f"the worker's name is {starts[0]['worker']!r}, not {w['name']!r}", "name")
            else:
                rescued = [e for e in lab.of("rescued") if e["key"] == f"n{i}"]
                need(not starts and len(rescued) == w["fallback"], f"{t}, fallback {w['fallback']}: {starts} {rescued}", "fallback")
                if rescued:
                    need(rescued[0]["name"] == t["fn"] and rescued[0]["args"] == (i,), f"the fallback got {rescued[0]}", "fallback-call")
                    seen.hit("fallback")
        need(lab.backlog() == (0, 0), f"the worker finished leaving {lab.backlog()}", "left")
        now, most = 0, 0
        for e in lab.events:
            if not e.get("other"):
                now += {"start": 1, "end": -1}.get(e["kind"], 0)
            most = max(most, now)
        need(most <= w["concurrency"], f"{most} at once with --concurrency {w['concurrency']}", "concurrency")
        need(len(made) == 1, f"{len(made)} workers", "made")
        for k, v in w["spans"].items():
            got = made[0].get(k.replace("-", "_"))
            default = {"redelivery-timeout": 300, "reconnection-delay": 5, "minimum-check-interval": 0.1, "scheduling-resolution": 0.25}[k]
            if got is not None:
                need(got == timedelta(seconds=v[1] if v else default), f"--{k} {v}: {got!r}", "option")
                seen.hit("option")
        if len(case["notes"]) > 1 or len(case["builtin"]) > 1:
            seen.nontrivial = True

    simulate(case, main, horizon=200_000)


PARTS = [
    Part("looks", looks, run_looks, quick=150, thorough=5000, rule="tasks were running and waiting"),
    Part("watches", watches, run_watches, quick=200, thorough=8000, rule="the task ended more than 3 s after the watch began"),
    Part("orders", orders, run_orders, quick=120, thorough=4000, rule="a call was struck"),
    Part("chores", chores, run_chores, quick=150, thorough=5000, rule="several tasks were added"),
]
