"""P35: docket.testing's assertions pass exactly when what they assert is so, and change nothing."""
from hypothesis import strategies as st

from docket import Perpetual, Retry, testing
from vlib.engine import Part, Seen
from vlib.gens import seeds
from vlib.lab import *

VALUES = [0, 1, False, None, "", "a", (1, 2), [1, 2], {"x": 1}, 1.0, b"\x00"]
values = st.integers(0, len(VALUES) - 1)
FUNCTIONS = ["ping", "pong", "again", "ticking"]


@st.composite
def cases(draw, tier):
    call = {"fn": st.sampled_from(FUNCTIONS), "args": st.lists(values, max_size=2), "kwargs": st.dictionaries(st.sampled_from(["x", "y"]), values, max_size=2)}
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan"])), "worker": draw(st.sampled_from([0, 1, 1, 2])),
        "knows": draw(st.booleans()),
        "ops": draw(st.lists(st.fixed_dictionaries({
            "op": st.sampled_from(["add"] * 5 + ["replace", "cancel", "end", "end", "wait"]), "key": st.integers(0, 4), "delay": st.sampled_from([0, 0, 2, 50, 50, 4000, -5]),
            **call}), min_size=1, max_size=14 if tier == "thorough" else 9)),
        "asks": draw(st.lists(st.fixed_dictionaries({
            "of": st.one_of(st.none(), st.integers(0, 9), st.integers(0, 9)), "by": st.sampled_from(["function", "name"]), "keyed": st.sampled_from([None, None, "own", "other"]),
            "argued": st.sampled_from([None, "own", "own", "other", "none"]), "named": st.sampled_from([None, "own", "part", "other", "extra", "absent", "none"]),
            "off": st.sampled_from([0, 0, 0, 1, -1]), **call}), min_size=2, max_size=6)),
    }


def run(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)
        held: dict[str, asyncio.Event] = {}

        async def hold(key, name):
            held[key] = asyncio.Event()
            lab.rec("start", key=key)
            await held[key].wait()
            held.pop(key, None)
            lab.rec("end", key=key)

        from docket.dependencies import TaskKey

        async def ping(*args, key: str = TaskKey(), **kwargs):
            await hold(key, "ping")

        async def pong(*args, key: str = TaskKey(), **kwargs):
            await hold(key, "pong")

        async def again(*args, key: str = TaskKey(), retry: Retry = Retry(attempts=2, delay=S(100_000)), **kwargs):
            await hold(key, "again")
            if retry.attempt == 1:
                raise ValueError("scripted")

        async def ticking(*args, key: str = TaskKey(), perpetual: Perpetual = Perpetual(every=S(100_000)), **kwargs):
            await hold(key, "ticking")

        fns = {f.__name__: f for f in (ping, pong, again, ticking)}
        lab.tasks = list(fns.values())
        ws = []
        for k in range(case["worker"]):
            ws.append(lab.start_worker(f"w{k}", concurrency=2, minimum_check_interval=S(0.05), scheduling_resolution=S(0.05)))
        model: dict[str, tuple] = {}  # every live key -> (name, args, kwargs)
        attempt: dict[str, int] = {}
        async with lab.docket() as d, lab.docket(None if case["knows"] else []) as asking:
            await asyncio.sleep(1)
            for o in case["ops"]:
                key, name = K(case, o["key"]), o["fn"]
                args, kwargs = tuple(VALUES[v] for v in o["args"]), {n: VALUES[v] for n, v in o["kwargs"].items()}
                when = lab.when(sim.now() + o["delay"]) if o["delay"] else None
                if o["op"] == "add":
                    await d.add(fns[name], when, key=key)(*args, **kwargs)
                    if key not in model:
                        model[key], attempt[key] = (name, args, kwargs), 1
                elif o["op"] == "replace" and key not in held:
                    await d.replace(fns[name], when or utcnow(), key)(*args, **kwargs)
                    model[key], attempt[key] = (name, args, kwargs), 1
                elif o["op"] == "cancel" and key not in held:
                    await d.cancel(key)
                    model.pop(key, None)
                elif o["op"] == "end" and held:
                    one = sorted(held)[o["key"] % len(held)]
                    held[one].set()
                    if model[one][0] == "ticking":
                        attempt[one] = 1
                    elif model[one][0] == "again" and attempt[one] == 1:
                        attempt[one] = 2
                    else:
                        model.pop(one)
                elif o["op"] == "wait":
                    await asyncio.sleep(3)
                await asyncio.sleep(1)
            await asyncio.sleep(6)
            # now nothing moves for a while: what isn't held waits
            pending = {k: m for k, m in model.items() if k not in held}
            keys = sorted(pending)
            before = (lab.backlog(), sorted((k, lab.stored_state(k)) for k in model))

            async def holds(what, **kw):
                try:
                    await what(asking, **kw)
                except AssertionError as e:
                    need(str(e), "an assertion failed without a word", "wordless")
                    return False
                return True

            need(await holds(testing.assert_no_tasks) == (not pending), f"assert_no_tasks is wrong: {pending} wait, {sorted(held)} run", "none")
            for n in range(-1, 2):
                need(await holds(testing.assert_task_count, count=len(pending) + n) == (n == 0), f"assert_task_count({len(pending) + n}) is wrong: {pending}", "count")
            for a in case["asks"]:
                own = keys[a["of"] % len(keys)] if keys and a["of"] is not None else None
                name, args, kwargs = pending[own] if own else (a["fn"], (), {})
                others = tuple(VALUES[v] for v in a["args"]), {n: VALUES[v] for n, v in a["kwargs"].items()}
                kw = {}
                if a["keyed"]:
                    kw["key"] = own if own and a["keyed"] == "own" else K(case, a["off"] + 2)
                if a["argued"]:
                    kw["args"] = {"own": args, "other": others[0], "none": ()}[a["argued"]]
                if a["named"]:
                    kw["kwargs"] = {"own": kwargs, "part": dict(list(kwargs.items())[:1]), "other": others[1], "extra": kwargs | others[1], "absent": kwargs | {"z": None}, "none": {}}[a["named"]]
                function = fns[name] if a["by"] == "function" else name
                matching = [k for k, (n, ar, kws) in pending.items() if n == name and kw.get("key", k) == k and kw.get("args", ar) == ar
                            and all(x in kws and kws[x] == v for x, v in kw.get("kwargs", {}).items())]
                need(await holds(testing.assert_task_scheduled, function=function, **kw) == bool(matching),
                     f"assert_task_scheduled({name}, {kw}) is wrong: {pending}", "scheduled")
                need(await holds(testing.assert_task_not_scheduled, function=function, **kw) == (not matching),
                     f"assert_task_not_scheduled({name}, {kw}) is wrong: {pending}", "not-scheduled")
                n = sum(m[0] == name for m in pending.values())
                need(await holds(testing.assert_task_count, function=function, count=n + a["off"]) == (a["off"] == 0),
                     f"assert_task_count({name}, {n + a['off']}) is wrong: {pending}", "count-of")
                seen.hit("match" if matching else "no match")
                seen.nontrivial |= bool(matching) and len(kw) > 0
            need((lab.backlog(), sorted((k, lab.stored_state(k)) for k in model)) == before, "asking changed something", "changed")
            seen.hit("running", bool(held))
            for e in held.values():
                e.set()
        await close_all(*ws)

    simulate(case, main)


PARTS = [Part("assertions", cases, run, quick=500, thorough=40_000, rule="an assertion with criteria matched a task")]
