"""P21: shared dependencies live as long as their worker; a worker's own dependencies wrap every task."""
import contextlib
import inspect
from contextlib import asynccontextmanager, contextmanager

from hypothesis import strategies as st

from docket import CurrentDocket, CurrentWorker, Depends, Perpetual, Retry, Shared, TaskKey, Timeout, Worker
from docket.dependencies import Dependency, current_execution, current_worker
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *


class Refused(Exception):
    pass


@st.composite
def cases(draw, tier):
    n = draw(st.integers(1, 4))
    calm = draw(st.booleans())
    nodes = [{"kind": draw(st.sampled_from(["value", "async", "cm", "acm", "acm"])),
              "parents": sorted(draw(st.sets(st.integers(0, i - 1), max_size=2))) if i else [],
              "context": draw(st.sets(st.sampled_from(["docket", "worker"])).map(sorted)),
              "slow": draw(st.sampled_from([0, 0.2, 1.5])), "slow_exit": draw(st.sampled_from([0, 0.5])),
              "refuses": 0 if calm else draw(st.sampled_from([0, 0, 1, 2]))} for i in range(n)]
    together = draw(st.booleans())
    k = draw(st.integers(1, 3))
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])), "nodes": nodes, "together": together,
        "workers": [{"docket": draw(st.integers(0, 1)), "concurrency": draw(st.sampled_from([1, 3, 10])),
                     "stop": draw(st.sampled_from([None, None, 3])), "again": draw(st.booleans())} for _ in range(k)],
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": st.sampled_from([0, 0, 0.1, 1, 4, 7]), "docket": st.integers(0, 1), "dur": st.sampled_from([0, 0.3, 2]),
            "wants": st.sets(st.integers(0, n - 1), min_size=1).map(sorted), "fails": st.booleans(),
        }), min_size=2, max_size=10)),
    }


def run(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)
        nodes, tasks = case["nodes"], case["tasks"]
        lives: list = []  # {"w": Worker, "ev": [...]}

        def life(w):
            return next(x for x in lives if x["w"] is w)

        def make(i, spec):
            def begin(kw):
                ev = life(current_worker.get())["ev"]
                value = [i]
                ev.append(("call", i, kw, value))
                if sum(e[0] == "call" and e[1] == i for e in ev) <= spec["refuses"]:
                    raise Refused(str(i))
                ev.append(("ready", i, value))
                return ev, value

            def leave(ev, value):
                ev.append(("exit", i, value))

            if spec["kind"] == "value":
                def f(**kw):
                    return begin(kw)[1]
            elif spec["kind"] == "async":
                async def f(**kw):
                    await asyncio.sleep(spec["slow"])
                    value = begin(kw)[1]
                    await asyncio.sleep(spec["slow"])
                    return value
            elif spec["kind"] == "cm":
                @contextmanager
                def f(**kw):
                    ev, value = begin(kw)
                    try:
                        yield value
                    finally:
                        leave(ev, value)
            else:
                @asynccontextmanager
                async def f(**kw):
                    await asyncio.sleep(spec["slow"])
                    ev, value = begin(kw)
                    await asyncio.sleep(spec["slow"])
                    try:
                        yield value
                    finally:
                        await asyncio.sleep(spec["slow_exit"])
                        leave(ev, value)
            P = inspect.Parameter
            f.__signature__ = inspect.Signature(
                [P(f"s{j}", P.KEYWORD_ONLY, default=Shared(factories[j])) for j in spec["parents"]]
                + [P(c, P.KEYWORD_ONLY, default={"docket": CurrentDocket, "worker": CurrentWorker}[c]()) for c in spec["context"]])
            return f

        factories: list = []
        for i, spec in enumerate(nodes):
            factories.append(make(i, spec))

        fns = {}
        for wants in {tuple(t["wants"]) for t in tasks}:
            async def f(i, **kw):
                ev = life(current_worker.get())["ev"]
                ev.append(("body", i, kw))
                await asyncio.sleep(tasks[i]["dur"])
                ev.append(("done", i, kw))
                if tasks[i]["fails"]:
                    raise ValueError("scripted")
            P = inspect.Parameter
            f.__signature__ = inspect.Signature([P("i", P.POSITIONAL_OR_KEYWORD)]
                                                + [P(f"s{j}", P.KEYWORD_ONLY, default=Shared(factories[j])) for j in wants])
            f.__name__ = "f" + "_".join(map(str, wants))
            fns[wants] = f
        lab.tasks = list(fns.values())

        stops = [asyncio.Event() for _ in case["workers"]]

        async def serve(stack, d, k, spec):
            """Enter a worker; returns a coroutine function that runs it."""
            w = Worker(d, name=f"w{k}", concurrency=spec["concurrency"], minimum_check_interval=S(0.05), scheduling_resolution=S(0.05))
            rec = {"w": w, "ev": [], "docket": d.name, "name": f"w{k}", "closed": False}
            lives.append(rec)

            async def closed(*_):
                rec["closed"] = True
                rec["ev"].append(("closed",))
            stack.push_async_exit(closed)
            await stack.enter_async_context(w)
            return w

        async def drive(w, stop):
            run = asyncio.ensure_future(w.run_forever())
            waiter = asyncio.ensure_future(stop.wait())
            await asyncio.wait({run, waiter}, return_when=asyncio.FIRST_COMPLETED)
            waiter.cancel()
            if not run.done():
                run.cancel()
            with contextlib.suppress(asyncio.CancelledError):
                await run

        async with contextlib.AsyncExitStack() as ds:
            dockets = [await ds.enter_async_context(lab.docket(name=n)) for n in ("d0", "d1")]

            async def alone(k, spec):
                async with contextlib.AsyncExitStack() as stack:
                    await drive(await serve(stack, dockets[spec["docket"]], k, spec), stops[k])

            async def all_together():
                async with contextlib.AsyncExitStack() as stack:
                    ws = [await serve(stack, dockets[spec["docket"]], k, spec) for k, spec in enumerate(case["workers"])]
                    await asyncio.gather(*(drive(w, stops[k]) for k, w in enumerate(ws)))

            if case["together"]:
                jobs = [sim.node("all").spawn(all_together())]
            else:
                jobs = [sim.node(f"w{k}").spawn(alone(k, spec)) for k, spec in enumerate(case["workers"])]

            async def stopper(k, spec):
                if spec["stop"]:
                    await lab.until(2 + spec["stop"])
                    stops[k].set()
                    if spec["again"] and not case["together"]:
                        await jobs[k]
                        stops[k] = asyncio.Event()
                        jobs[k] = sim.node(f"w{k}").spawn(alone(k, spec))

            stoppers = [asyncio.ensure_future(stopper(k, s)) for k, s in enumerate(case["workers"])]

            async def submit(i, t):
                await lab.until(2 + t["at"])
                return await dockets[t["docket"]].add(fns[tuple(t["wants"])], key=K(case, i))(i)

            executions = await asyncio.gather(*(submit(i, t) for i, t in enumerate(tasks)))
            for s in stoppers:
                await s
            served = {s["docket"] for k, s in enumerate(case["workers"]) if not stops[k].is_set()}
            live = [i for i, t in enumerate(tasks) if t["docket"] in served]

            async def settled():
                for i in live:
                    await executions[i].sync()
                return all(executions[i].state.value in ("completed", "failed") for i in live)

            for _ in range(200):
                if await settled():
                    break
                await asyncio.sleep(0.5)
            need(await settled(), f"tasks {[i for i in live if executions[i].state.value not in ('completed', 'failed')]} never finished", "stuck")
            for s in stops:
                s.set()
            for j in jobs:
                await j
            for i, t in enumerate(tasks):
                await executions[i].sync()

        ended = {}
        for rec in lives:
            who = f"worker {rec['name']} of {rec['docket']}"
            ev, ready, stack, running = rec["ev"], {}, [], 0
            last_done = max([p for p, e in enumerate(ev) if e[0] in ("body", "done")], default=-1)
            for p, e in enumerate(ev):
                if e[0] == "call":
                    _, j, kw, value = e
                    need(j not in ready, f"{who}: shared factory {j} was called again", "again")
                    for m in nodes[j]["parents"]:
                        need(kw[f"s{m}"] is ready.get(m), f"{who}: shared {j} got {kw[f's{m}']} for {m}", "value")
                    if "docket" in kw:
                        need(kw["docket"].name == rec["docket"], f"{who}: shared {j} was given docket {kw['docket'].name}", "context")
                    if "worker" in kw:
                        need(kw["worker"] is rec["w"], f"{who}: shared {j} was given worker {kw['worker'].name}", "context")
                elif e[0] == "ready":
                    ready[e[1]] = e[2]
                    if nodes[e[1]]["kind"] in ("cm", "acm"):
                        stack.append(e[2])
                elif e[0] == "body":
                    need({n: id(v) for n, v in e[2].items()} == {f"s{j}": id(ready.get(j)) for j in tasks[e[1]]["wants"]},
                         f"{who}: task {e[1]} got {e[2]}, shared are {ready}", "instance")
                    need(tasks[e[1]]["docket"] == int(rec["docket"][1]), f"{who}: ran a task of docket {tasks[e[1]]['docket']}", "docket")
                    ended[e[1]] = ended.get(e[1], 0) + 1
                elif e[0] == "exit":
                    need(p > last_done, f"{who}: shared {e[1]} was closed before the last task ended", "early")
                    need(stack and stack[-1] is e[2], f"{who}: shared {e[1]} closed out of order", "order")
                    stack.pop()
                elif e[0] == "closed":
                    need(not stack, f"{who}: closed, but shared {stack} are still open", "leaked")
            need(ev and ev[-1][0] == "closed" or rec["closed"], f"{who}: did not close", "leaked")
            if len(ready) and sum(e[0] == "body" for e in ev) > 1:
                seen.nontrivial = True
            seen.hit("lives")
        for i in live:
            state = executions[i].state.value
            if state == "completed":
                need(ended.get(i) and not tasks[i]["fails"], f"task {i} is completed", "outcome")
            elif not tasks[i]["fails"]:
                need(not ended.get(i) and "Failed to resolve" in (executions[i].error or ""), f"task {i} failed: {executions[i].error}", "outcome")
                need(any(s["refuses"] for s in nodes), f"task {i} failed: {executions[i].error}", "outcome")
                seen.hit("refused")

    simulate(case, main)


PARTS = [Part("shared", cases, run, quick=400, thorough=20_000, rule="two tasks or more of a worker shared something")]


# -- dependencies of the worker -------------------------------------------------


@st.composite
def wrap_cases(draw, tier):
    own = draw(st.lists(st.sampled_from(["traced", "traced", "depends", "depends", "depends2"]), max_size=3))
    policy = draw(st.sampled_from(["", "", "retry", "timeout"]))
    at = draw(st.integers(0, len(own)))
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan"])), "mapping": draw(st.booleans()),
        "deps": own[:at] + [policy] * bool(policy) + own[at:], "concurrency": draw(st.sampled_from([1, 10])),
        "refuses": draw(st.sampled_from([0, 0, 0, 1, 9])),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "own": st.sampled_from(["", "", "retry", "timeout"]), "uses": st.booleans(), "fails": st.sampled_from([0, 0, 1, 2, 9]),
            "dur": st.sampled_from([0, 0.3, 5]), "perpetual": st.sampled_from([False, False, False, True])}), min_size=1, max_size=4)),
    }


def policies_of(case, t) -> list[str]:
    return [k for k in case["deps"] if k in ("retry", "timeout")] + [t["own"]] * bool(t["own"])


def hopeless(case, t) -> bool:
    """Would never have a successful turn."""
    policies = policies_of(case, t)
    attempts = 3 if "retry" in policies else 1
    refuses = case["refuses"] if t["uses"] or "depends" in case["deps"] else 0
    return (len(policies) != len(set(policies)) or max(refuses, t["fails"]) >= attempts
            or "timeout" in policies and t["dur"] == 5)


def run_wrap(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)
        tasks = [{**t, "perpetual": t["perpetual"] and not hopeless(case, t)} for t in case["tasks"]]
        log: dict[tuple, list] = {}
        turns: dict[str, int] = {}

        begun: dict[int, tuple] = {}

        def here():
            e = current_execution.get()
            if id(e) not in begun:
                begun[id(e)] = (e, log.setdefault((e.key, turns.get(e.key, 0), e.attempt), []))
            return begun[id(e)][1]

        class Traced(Dependency):
            def __init__(self, n):
                self.n = n

            async def __aenter__(self):
                here().append(("enter", self.n))

            async def __aexit__(self, *exc):
                here().append(("exit", self.n))

        @asynccontextmanager
        async def resource(key: str = TaskKey()):
            here().append(("enter", "resource"))
            if current_execution.get().attempt <= case["refuses"]:
                here().append(("exit", "resource"))
                raise Refused("resource")
            value = [key]
            try:
                yield value
            finally:
                here().append(("exit", "resource"))

        def plain():
            here().append(("plain",))

        deps = [{"traced": lambda: Traced(n), "depends": lambda: Depends(resource), "depends2": lambda: Depends(plain),
                 "retry": lambda: Retry(attempts=3, delay=S(0.2)), "timeout": lambda: Timeout(S(2))}[kind]()
                for n, kind in enumerate(case["deps"])]

        def make(i, t):
            async def f(**kw):
                ev = here()
                ev.append(("body", kw))
                key = current_execution.get().key
                attempt = current_execution.get().attempt
                try:
                    await asyncio.sleep(t["dur"])
                    if attempt <= t["fails"]:
                        raise ValueError("scripted")
                finally:
                    ev.append(("done", sim.now()))
                turns[key] = turns.get(key, 0) + 1
                if t["perpetual"] and turns[key] == 2:
                    kw["perpetual"].cancel()
            P = inspect.Parameter
            ps = []
            if t["own"]:
                ps.append(P(t["own"], P.KEYWORD_ONLY, default=Retry(attempts=3, delay=S(0.2)) if t["own"] == "retry" else Timeout(S(2))))
            if t["uses"]:
                ps.append(P("res", P.KEYWORD_ONLY, default=Depends(resource)))
            if t["perpetual"]:
                ps.append(P("perpetual", P.KEYWORD_ONLY, default=Perpetual(every=S(1))))
            f.__signature__ = inspect.Signature(ps)
            f.__name__ = f"f{i}"
            return f

        lab.tasks = [make(i, t) for i, t in enumerate(tasks)]
        w = lab.start_worker("w", dependencies={f"n{9 - k}": d for k, d in enumerate(deps)} if case["mapping"] else deps,
                             concurrency=case["concurrency"], minimum_check_interval=S(0.05), scheduling_resolution=S(0.05))
        async with lab.docket() as d:
            await asyncio.sleep(2)
            exs = [await d.add(f, key=K(case, i))() for i, f in enumerate(lab.tasks)]
            await lab.quiesce(lambda: lab.backlog() == (0, 0), limit=80)
            await asyncio.sleep(1)
            for i, t in enumerate(tasks):
                key = K(case, i)
                policies = policies_of(case, t)
                who = f"task {i}"
                await exs[i].sync()
                state = exs[i].state.value
                mine = {k[1:]: v for k, v in log.items() if k[0] == key}
                if len(policies) != len(set(policies)):
                    need(state == "failed" and "Failed to resolve" in exs[i].error,
                         f"{who}: with {policies}, it ended {state}: {exs[i].error}", "conflict")
                    need(not any(e[0] == "body" for ev in mine.values() for e in ev), f"{who}: ran with {policies}", "conflict")
                    seen.hit("conflict")
                    continue
                attempts = 3 if "retry" in policies else 1
                late = "timeout" in policies and t["dur"] == 5
                uses = t["uses"] or "depends" in case["deps"]
                refuses = case["refuses"] if uses else 0
                # the attempts of each turn
                expected, turn, ended = [], 0, None
                while True:
                    for a in range(1, attempts + 1):
                        ok = a > refuses and a > t["fails"] and not late
                        expected.append((turn, a, ok))
                        if ok:
                            break
                    if ok:
                        turn += 1
                    if not t["perpetual"] or turn == 2:
                        ended = ok
                        break
                need(sorted(mine) == sorted((tn, a) for tn, a, _ in expected), f"{who}: attempts {sorted(mine)}, not {expected}", "attempts")
                for tn, a, ok in expected:
                    ev = mine[tn, a]
                    where = f"{who}, turn {tn}, attempt {a}"
                    bodies = [e for e in ev if e[0] == "body"]
                    need(len(bodies) == (a > refuses), f"{where}: ran {len(bodies)} times", "runs")
                    for _, kw in bodies:
                        need(set(kw) == {t["own"], "res" if t["uses"] else "", "perpetual" if t["perpetual"] else ""} - {""},
                             f"{where}: body got {sorted(kw)}", "parameters")
                        if t["uses"]:
                            need(kw["res"] == [key], f"{where}: body got {kw['res']}", "value")
                    enters = [e[1] for e in ev if e[0] == "enter"]
                    exits = [e[1] for e in ev if e[0] == "exit"]
                    order = []
                    for n, kind in enumerate(case["deps"]):
                        if kind == "traced":
                            order.append(n)
                        if kind == "depends" and "resource" not in order:
                            order.append("resource")
                    if t["uses"] and "resource" not in order:
                        order.append("resource")
                    if a > refuses:
                        need(enters == order, f"{where}: entered {enters}, not {order}", "wrapped")
                        need(exits == order[::-1], f"{where}: left {exits}, not in reverse of {order}", "wrapped")
                        kinds = [e[0] for e in ev if e[0] in ("enter", "body", "done", "exit")]
                        need(kinds == ["enter"] * len(order) + ["body", "done"] + ["exit"] * len(order), f"{where}: {kinds}", "wrapped")
                        need(sum(e[0] == "plain" for e in ev) == ("depends2" in case["deps"]), f"{where}: {ev}", "plain")
                need(state == ("completed" if ended else "failed"), f"{who}: {state}, expected {expected}", "outcome")
                if case["deps"]:
                    seen.nontrivial = True
                    seen.hit("wrapped")
        need(not lab.worker_ends, f"the worker ended by itself: {lab.worker_ends}", "worker-died")
        await close_all(w)

    simulate(case, main)


PARTS.append(Part("wrapped", wrap_cases, run_wrap, quick=400, thorough=20_000, rule="a worker's own dependencies wrapped a task"))
