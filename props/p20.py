"""P20: a task gets the dependencies it declares, each resolved once and released in reverse order, come what may."""
import inspect
from contextlib import asynccontextmanager, contextmanager
from typing import Annotated

from hypothesis import strategies as st

from docket import CurrentDocket, CurrentExecution, CurrentWorker, Depends, Retry, TaskArgument, TaskKey, Timeout
from docket.dependencies import Dependency, current_execution
from docket.execution import ExecutionState
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *

# what a caller may pass instead of having a dependency resolved
GIVEN = [["given"], None, 0, "", False, []]
CONTEXT = ["key", "a", "a-named", "b-named", "b-optional", "missing", "execution", "docket", "worker"]


class Scripted(ValueError):
    pass


class Refused(Exception):
    pass


class Closing(Exception):
    pass


def instead(j: int):
    return GIVEN[j % len(GIVEN)]


@st.composite
def cases(draw, tier):
    n = draw(st.integers(1, 7 if tier == "thorough" else 5))
    nodes = []
    calm = draw(st.booleans())
    for i in range(n):
        kind = draw(st.sampled_from(["value", "async", "cm", "acm", "acm"]))
        nodes.append({
            "kind": kind, "parents": sorted(draw(st.sets(st.integers(0, i - 1), max_size=3))) if i else [],
            "context": draw(st.lists(st.sampled_from(CONTEXT), max_size=2, unique=True)),
            "slow": draw(st.sampled_from([0, 0, 0.3])), "slow_exit": draw(st.sampled_from([0, 0, 0.3])),
            "refuses": 0 if calm else draw(st.sampled_from([0] * 6 + [1, 5])),
            "closing": 0 if calm else draw(st.sampled_from([0] * 6 + [1, 5])),
            "swallows": not calm and draw(st.sampled_from([False] * 4 + [True])),
        })
    wants = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1)))
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])), "nodes": nodes, "wants": wants,
        "order": draw(st.permutations(wants)), "context": draw(st.lists(st.sampled_from([c for c in CONTEXT if c != "a"]), max_size=2, unique=True)),
        "traced": draw(st.sampled_from(["", "a", "b", "ab", "d"])), "timeout": draw(st.booleans()),
        "attempts": draw(st.sampled_from([1, 1, 3])), "workers": draw(st.integers(1, 2)), "concurrency": draw(st.sampled_from([1, 10])),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": st.sampled_from([0, 0, 0.2, 1]), "how": st.sampled_from(WRITTEN), "b": st.sampled_from([7, 8, 0, "", False]),
            "dur": st.sampled_from([0, 0.3]), "fails": st.sampled_from([0, 0, 0, 1, 5]),
            "given": st.sets(st.sampled_from(wants), max_size=2).map(sorted) if draw(st.booleans()) else st.just([]),
        }), min_size=1, max_size=4)),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)
        nodes, tasks = case["nodes"], case["tasks"]
        log: dict[tuple, list] = {}  # (key, attempt) -> events

        def here():
            e = current_execution.get()
            return log.setdefault((e.key, e.attempt), [])

        def snapshot(kw):
            return {n: (v.key, v.attempt) if n == "c_execution" else v for n, v in kw.items()}

        def attempt():
            return current_execution.get().attempt

        def context_default(c):
            return {"key": TaskKey, "a": TaskArgument, "a-named": lambda: TaskArgument("a"), "b-named": lambda: TaskArgument("b"),
                    "b-optional": lambda: TaskArgument("b", optional=True),
                    "missing": lambda: TaskArgument("zz", optional=True), "execution": CurrentExecution, "docket": CurrentDocket,
                    "worker": CurrentWorker}[c]()

        def context_name(c):
            return "a" if c == "a" else f"c_{c.replace('-', '_')}"

        def params(parents, context):
            P = inspect.Parameter
            return ([P(f"p{j}", P.KEYWORD_ONLY, default=Depends(factories[j])) for j in parents]
                    + [P(context_name(c), P.KEYWORD_ONLY, default=context_default(c)) for c in context])

        def make(i, spec):
            def begin(kw):
                ev = here()
                value = [i]
                ev.append(("call", i, snapshot(kw), value))
                if attempt() <= spec["refuses"]:
                    raise Refused(f"factory {i}")
                return ev, value

            def entered(ev, value):
                ev.append(("enter", i, value))

            def leave(ev, value, error):
                ev.append(("exit", i, value, error))
                if attempt() <= spec["closing"]:
                    raise Closing(f"factory {i}")

            if spec["kind"] == "value":
                def f(**kw):
                    return begin(kw)[1]
            elif spec["kind"] == "async":
                async def f(**kw):
                    if spec["slow"]:
                        await asyncio.sleep(spec["slow"])
                    return begin(kw)[1]
            elif spec["kind"] == "cm":
                @contextmanager
                def f(**kw):
                    ev, value = begin(kw)
                    entered(ev, value)
                    error = None
                    try:
                        yield value
                    except Scripted as e:
                        error = e
                        if not spec["swallows"]:
                            raise
                    except BaseException as e:
                        error = e
                        raise
                    finally:
                        leave(ev, value, error)
            else:
                @asynccontextmanager
                async def f(**kw):
                    if spec["slow"]:
                        await asyncio.sleep(spec["slow"])
                    ev, value = begin(kw)
                    entered(ev, value)
                    error = None
                    try:
                        yield value
                    except Scripted as e:
                        error = e
                        if not spec["swallows"]:
                            raise
                    except BaseException as e:
                        error = e
                        raise
                    finally:
                        if spec["slow_exit"]:
                            await asyncio.sleep(spec["slow_exit"])
                        leave(ev, value, error)
            f.__signature__ = inspect.Signature(params(spec["parents"], spec["context"]))
            return f

        factories: list = []
        for i, spec in enumerate(nodes):
            factories.append(make(i, spec))

        class Traced(Dependency):
            bound = None

            def bind_to_parameter(self, name, value):
                t = Traced()
                t.bound = (name, value)
                return t

            async def __aenter__(self):
                self.ev = here()
                self.ev.append(("enter", "traced", self.bound))
                return None

            async def __aexit__(self, kind, error, tb):
                self.ev.append(("exit", "traced", self.bound, error))

        async def task(*args, **kw):
            execution = current_execution.get()
            i = index[execution.key]
            log.setdefault((execution.key, execution.attempt), []).append(("body", args, snapshot(kw)))
            if tasks[i]["dur"]:
                await asyncio.sleep(tasks[i]["dur"])
            log[execution.key, execution.attempt].append(("done",))
            if execution.attempt <= tasks[i]["fails"]:
                raise Scripted(f"attempt {execution.attempt}")
            return ("result", i)

        P = inspect.Parameter
        extra = [P("retry", P.KEYWORD_ONLY, default=Retry(attempts=case["attempts"], delay=S(0.1)))] * (case["attempts"] > 1)
        extra += [P("timeout", P.KEYWORD_ONLY, default=Timeout(S(500)))] * case["timeout"]
        task.__signature__ = inspect.Signature(
            [P("a", P.POSITIONAL_OR_KEYWORD), P("b", P.POSITIONAL_OR_KEYWORD, default=7)]
            + params(case["order"], case["context"]) + extra)
        first = f"p{case['order'][0]}"
        task.__annotations__ = {name: Annotated[object, Traced] for name in ("a", "b") if name in case["traced"]}
        if case["traced"] == "d":
            task.__annotations__[first] = Annotated[object, Traced()]

        lab.tasks = [task]
        index, executions = {}, {}
        ws = [lab.start_worker(f"w{i}", concurrency=case["concurrency"], minimum_check_interval=S(0.05), scheduling_resolution=S(0.05))
              for i in range(case["workers"])]
        async with lab.docket() as d:
            async def submit(i, t):
                await asyncio.sleep(2 + t["at"])
                key = K(case, i)
                index[key] = i
                args, kw = spread(task, t["how"], a=("a", i), b=t["b"])
                kw |= {f"p{j}": instead(j) for j in t["given"]}
                executions[i] = await d.add(task, key=key)(*args, **kw)

            await asyncio.gather(*(submit(i, t) for i, t in enumerate(tasks)))
            await lab.quiesce(lambda: lab.backlog() == (0, 0), limit=200)
            await asyncio.sleep(1 + slack)
            for i, t in enumerate(tasks):
                key = K(case, i)
                mine = sorted(a for k, a in log if k == key)
                error, result = "nothing", None
                for k in range(1, case["attempts"] + 1):
                    error, result = judge(case, seen, i, t, k, key, log.get((key, k), []))
                    if error is None:
                        break
                need(mine == list(range(1, k + 1)), f"task {i}: attempts {mine}, not 1..{k}", "attempts")
                ex = executions[i]
                await ex.sync()
                if error is None:
                    need(ex.state == ExecutionState.COMPLETED, f"task {i} should have completed, but is {ex.state.value}: {ex.error}", "outcome")
                    got = await ex.get_result(timeout=S(5))
                    need(got == result, f"task {i}: result {got!r}, not {result!r}", "result")
                else:
                    need(ex.state == ExecutionState.FAILED, f"task {i} should have failed ({error}), but is {ex.state.value}", "outcome")
                    try:
                        await ex.get_result(timeout=S(5))
                    except Exception as e:
                        need(name_of(e) == error, f"task {i} failed with {e!r}, not {error}", "error")
                    else:
                        need(False, f"task {i} has a result, but failed", "error")
        need(not lab.worker_ends, f"a worker ended by itself: {lab.worker_ends}", "worker-died")
        await close_all(*ws)

    simulate(case, main)


def nodes_needed(case, t) -> set[int]:
    todo, out = [j for j in case["wants"] if j not in t["given"]], set()
    while todo:
        j = todo.pop()
        if j not in out:
            out.add(j)
            todo += case["nodes"][j]["parents"]
    return out


def name_of(error) -> "str | None":
    if error is None:
        return None
    if isinstance(error, BaseExceptionGroup):
        return "refused" if all(isinstance(e, Refused) for e in error.exceptions) and error.exceptions else repr(error)
    return {"Scripted": "scripted", "Closing": "closing"}.get(type(error).__name__, repr(error))


def judge(case, seen, i, t, k, key, ev):
    """Check one attempt; returns (how it ended, result)."""
    nodes = case["nodes"]
    who = f"task {i}, attempt {k}"
    needed = nodes_needed(case, t)
    refusing = {j for j in needed if k <= nodes[j]["refuses"]}
    doomed = set(refusing)
    for j in sorted(needed):
        if doomed & set(nodes[j]["parents"]):
            doomed.add(j)
    values: dict[int, object] = {}

    def context_ok(where, kw, context):
        for c in context:
            got = kw["a" if c == "a" else f"c_{c.replace('-', '_')}"]
            ok = {"key": lambda: got == key, "a": lambda: got == ("a", i), "a-named": lambda: got == ("a", i),
                  "b-named": lambda: got == t["b"], "b-optional": lambda: got == t["b"] and type(got) is type(t["b"]), "missing": lambda: got is None,
                  "execution": lambda: got == (key, k), "docket": lambda: got.name == "d",
                  "worker": lambda: got.name in ("w0", "w1")}[c]()
            need(ok, f"{who}: {where} got {got!r} for {c}", "context")

    calls: dict[int, int] = {}
    stack: list = []
    entered = closing = False
    body = done = None
    error = None
    for e in ev:
        if e[0] == "call":
            _, j, kw, value = e
            calls[j] = calls.get(j, 0) + 1
            need(body is None, f"{who}: factory {j} called after the body had begun", "late")
            need(set(kw) == {f"p{m}" for m in nodes[j]["parents"]} | {"a" if c == "a" else f"c_{c.replace('-', '_')}" for c in nodes[j]["context"]},
                 f"{who}: factory {j} got {sorted(kw)}", "parameters")
            for m in nodes[j]["parents"]:
                need(kw[f"p{m}"] is values.get(m), f"{who}: factory {j} got {kw[f'p{m}']!r} for its dependency on {m}", "value")
            context_ok(f"factory {j}", kw, nodes[j]["context"])
            values[j] = value
        elif e[0] == "enter":
            need(not closing and body is None, f"{who}: {e[1]} entered late", "late")
            stack.append(e[1:3])
        elif e[0] == "body":
            need(body is None, f"{who}: the body ran twice", "twice")
            body = e
        elif e[0] == "done":
            done = True
            error = "scripted" if k <= t["fails"] else None
        elif e[0] == "exit":
            if not closing:
                closing = True
                need(done or refusing, f"{who}: {e[1]} was released before the body was done", "early")
                if refusing:
                    error = "refused"
            need(stack and stack[-1][0] == e[1] and stack[-1][1] is e[2], f"{who}: {e[1]} released, but {stack[-1:]} is the innermost", "order")
            stack.pop()
            need(name_of(e[3]) == error, f"{who}: {e[1]} saw {e[3]!r} on its way out, not {error}", "seen-error")
            if e[1] != "traced":
                if nodes[e[1]]["swallows"] and error == "scripted" and nodes[e[1]]["kind"] in ("cm", "acm"):
                    error = None
                    seen.hit("swallowed")
                if k <= nodes[e[1]]["closing"]:
                    error = "closing"
                    seen.hit("failed-closing")
    need(not stack, f"{who}: never released: {stack}", "leaked")
    unneeded = set(calls) - needed
    need(not unneeded, f"{who}: factories {unneeded} were called, but nothing needs them", "unneeded")
    for j in needed - doomed:
        need(calls.get(j, 0) == 1 or refusing and not calls.get(j), f"{who}: factory {j} was called {calls.get(j, 0)} times", "times")
    if refusing:
        need(body is None, f"{who}: the body ran without {refusing}", "ran")
        seen.hit("refused")
        if not closing:
            error = "refused"
    else:
        need(body is not None and done, f"{who}: the body did not run", "body")
        args, kw = body[1], dict(body[2])
        need((args[0] if args else kw.get("a")) == ("a", i), f"{who}: body got {args} {kw}", "argument")
        b = args[1] if len(args) > 1 else kw.get("b", 7)
        need(b == t["b"], f"{who}: body got b={b!r}", "argument")
        for j in case["wants"]:
            if j in t["given"]:
                need(kw[f"p{j}"] == instead(j) and type(kw[f"p{j}"]) is type(instead(j)), f"{who}: body got {kw[f'p{j}']!r} for p{j}, which was given", "given")
            else:
                need(kw[f"p{j}"] is values[j], f"{who}: body got {kw[f'p{j}']!r} for p{j}", "value")
        context_ok("body", kw, case["context"])
        bound = [e[2] for e in ev if e[0] == "enter" and e[1] == "traced"]
        first = case["order"][0]
        want = [{"a": ("a", ("a", i)), "b": ("b", t["b"]),
                 "d": (f"p{first}", instead(first) if first in t["given"] else values.get(first))}[c] for c in case["traced"]]
        need(bound == want, f"{who}: annotated dependencies were bound to {bound}, not {want}", "bound")
    result = ("result", i) if body and error is None and k > t["fails"] else None
    if len(needed) > 1:
        seen.nontrivial = True
    seen.hit("attempts")
    return error, result


PARTS = [Part("graphs", cases, run, quick=600, thorough=40_000, rule="two factories or more took part")]
