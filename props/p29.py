"""P29: whatever becomes of a task, its worker and the tasks beside it carry on."""
import inspect
import threading
from contextlib import asynccontextmanager
from datetime import timedelta
from typing import Annotated

from hypothesis import strategies as st

from docket import Depends, ExponentialRetry, Logged, Perpetual, Retry, Timeout
from docket.execution import ExecutionCancelled
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *


class Odd(Exception):
    """Takes two arguments, but tells its base of one, so it can't be rebuilt from what is stored."""

    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


class Holds(Exception):
    """Can't be stored at all."""

    def __init__(self):
        super().__init__("holds a lock")
        self.lock = threading.Lock()


class Mute(Exception):
    def __str__(self):
        raise AttributeError("nothing to say")


class Faceless(Exception):
    def __repr__(self):
        raise AttributeError("nothing to see")


class Unreduced:
    def __reduce__(self):
        raise RuntimeError("won't be stored")


class Shy:
    def __repr__(self):
        raise RuntimeError("won't be shown")


class Loner:
    def __eq__(self, other):
        raise RuntimeError("won't be compared")

    __hash__ = object.__hash__


def deep(n=0):
    return deep(n + 1)


def group():
    return ExceptionGroup("several", [ValueError("a"), KeyError("b")])


def chained():
    e = RuntimeError("second")
    e.__cause__ = Mute()
    return e


# what the body raises
RAISES = {
    "value": lambda: ValueError("plain"), "empty": lambda: ValueError(), "key": lambda: KeyError(("a", 1)), "assert": lambda: AssertionError("no"),
    "stop": lambda: StopIteration("s"), "stopasync": lambda: StopAsyncIteration("s"), "timeout": lambda: TimeoutError("late"),
    "refused": lambda: ConnectionRefusedError(111, "elsewhere"), "os": lambda: OSError(5, "io"), "eof": lambda: EOFError(), "memory": lambda: MemoryError("big"),
    "odd": lambda: Odd("a", "b"), "holds": Holds, "mute": lambda: Mute("x"), "faceless": lambda: Faceless("x"), "group": group, "chained": chained,
    "surrogate": lambda: ValueError("file caf\udce9.txt"), "nul": lambda: ValueError("a\0b"), "unicode": lambda: ValueError("naïve ☃ \U0001f680"),
    "long": lambda: ValueError("x" * 200_000), "lines": lambda: ValueError("a\nb\r\n{c} %s %(d)s"), "notes": lambda: ValueError("with notes"),
    "lookup": lambda: LookupError(b"\xff\xfe"), "import": lambda: ModuleNotFoundError("gone", name="gone"), "recursion": None,
}
# what else can go wrong, and how the task ends then
OTHER = {
    "ok": "completed", "cancelled": "cancelled", "few": "failed", "many": "failed", "unknown-kw": "failed", "unregistered": "completed",
    "unreduced": "failed", "lambda": "completed", "lock": "failed", "deep-result": "failed",
    "dep": "failed", "dep-exit": "failed", "dep-surrogate": "failed", "sync-cancel": "cancelled",
    "retry-far": "failed", "retry-what": "failed", "expo": "failed", "perpetuate-lock": "failed", "perpetual-odd-at": "failed", "late": "failed",
    "shy": "failed", "loner": "completed", "unloadable": "failed",
}


@st.composite
def cases(draw, tier):
    trouble = st.sampled_from(sorted(RAISES) * 2 + sorted(OTHER) * 2)
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])), "concurrency": draw(st.sampled_from([1, 2, 10])),
        "workers": draw(st.sampled_from([1, 1, 2])), "fallback": draw(st.sampled_from(["default", "custom", "raises"])),
        "ttl": draw(st.sampled_from([900, 900, 0])),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "kind": trouble, "at": times(3, 0.1), "attempts": st.sampled_from([1, 1, 1, 2, 3]), "timeout": st.sampled_from([0, 0, 5]),
            "dur": st.sampled_from([0, 0, 0.2]), "delay": st.sampled_from([0, 0, 1])}), min_size=1, max_size=6)),
        "controls": draw(st.lists(st.fixed_dictionaries({"at": times(5, 0.1), "dur": st.sampled_from([0, 0.5, 2])}), min_size=1, max_size=4)),
    }


FALLEN = {"default": "completed", "custom": "completed", "raises": "failed"}
LOADS = {"allowed": True}


def only_here():
    if not LOADS["allowed"]:
        raise ModuleNotFoundError("no module named 'tomorrow'")
    return Unloadable()


class Unloadable:
    def __reduce__(self):
        return only_here, ()


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]
    LOADS["allowed"] = False

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]))
        tasks = case["tasks"]

        def bad_dep():
            raise ValueError("broken")

        def surrogate_dep():
            raise ValueError("broken \udcff")

        @asynccontextmanager
        async def bad_exit():
            yield 1
            raise ValueError("broken on the way out")

        def make(i, t):
            kind = t["kind"]

            async def f(x=None, **kw):
                lab.rec("run", i=i)
                await asyncio.sleep(t["dur"])
                if kind in RAISES:
                    if kind == "recursion":
                        deep()
                    e = RAISES[kind]()
                    if kind == "notes":
                        e.add_note("note \udcff")
                    raise e
                if kind == "cancelled":
                    raise asyncio.CancelledError("of its own")
                if kind == "sync-cancel":
                    asyncio.current_task().cancel()
                    await asyncio.sleep(1)
                if kind == "unreduced":
                    return Unreduced()
                if kind == "lock":
                    return threading.Lock()
                if kind == "deep-result":
                    value = []
                    for _ in range(100_000):
                        value = [value]
                    return value
                if kind == "lambda":
                    return lambda: i
                if kind == "retry-far":
                    kw["retry"].after(timedelta.max)
                if kind == "retry-what":
                    kw["retry"].after("5s")
                if kind == "perpetuate-lock":
                    kw["perpetual"].perpetuate(threading.Lock())
                if kind == "perpetual-odd-at":
                    kw["perpetual"].at("tomorrow")
                if kind == "late":
                    await asyncio.sleep(100)
                if kind in ("shy", "expo"):
                    raise ValueError("scripted")
                return i
            P = inspect.Parameter
            ps = [P("x", P.POSITIONAL_OR_KEYWORD, default=None, annotation=Annotated[object, Logged] if kind == "shy" else object)]
            if kind == "few":
                ps.append(P("y", P.POSITIONAL_OR_KEYWORD))
                ps = ps[::-1]

                async def f(y, x=None): lab.rec("run", i=i)
            if kind == "many" or kind == "unknown-kw":
                async def f(x=None): lab.rec("run", i=i)
            dep = {"dep": bad_dep, "dep-surrogate": surrogate_dep, "dep-exit": bad_exit}.get(kind)
            if dep:
                ps.append(P("dep", P.KEYWORD_ONLY, default=Depends(dep)))
            if t["attempts"] > 1 and kind not in ("few", "many", "unknown-kw", "expo"):
                ps.append(P("retry", P.KEYWORD_ONLY, default=Retry(attempts=t["attempts"], delay=S(0.2))))
            elif kind in ("retry-far", "retry-what"):
                ps.append(P("retry", P.KEYWORD_ONLY, default=Retry(attempts=3)))
            elif kind == "expo":
                ps.append(P("retry", P.KEYWORD_ONLY, default=ExponentialRetry(attempts=3, minimum_delay=timedelta.max, maximum_delay=timedelta.max)))
            if kind.startswith("perpet"):
                ps.append(P("perpetual", P.KEYWORD_ONLY, default=Perpetual(every=S(1))))
            if t["timeout"] and kind not in ("few", "many", "unknown-kw") or kind == "late":
                ps.append(P("timeout", P.KEYWORD_ONLY, default=Timeout(S(5))))
            f.__signature__ = inspect.Signature(ps)
            f.__name__ = f"f{i}"
            return f
        fns = [make(i, t) for i, t in enumerate(tasks)]

        async def control(c: int, dur: float):
            lab.rec("begin", c=c)
            await asyncio.sleep(dur)
            lab.rec("end", c=c)
            return c
        lab.tasks = [f for f, t in zip(fns, tasks) if t["kind"] != "unregistered"] + [control]
        fallen: list = []

        async def custom(*args, **kwargs):
            fallen.append((args, kwargs))
            if case["fallback"] == "raises":
                raise ValueError("not mine")
        kw = {} if case["fallback"] == "default" else {"fallback_task": custom}
        ws = [lab.start_worker(f"w{k}", restart_after=None, concurrency=case["concurrency"], minimum_check_interval=S(0.05),
                               scheduling_resolution=S(0.05), **kw) for k in range(case["workers"])]
        async with lab.docket(fns + [control]) as d:
            await d.strike(None, "x", "==", 12345)
            await asyncio.sleep(2)

            async def submit(i, t):
                await lab.until(2 + t["at"])
                args, kwargs = {"many": ((1, 2, 3), {}), "unknown-kw": ((), {"nope": 1}), "unregistered": ((i,), {"k": i}), "shy": ((Shy(),), {}), "loner": ((Loner(),), {}),
                                "unloadable": ((Unloadable(),), {})}.get(t["kind"], ((), {}))
                return await d.add(fns[i], lab.when(sim.now() + t["delay"]), key=K(case, i))(*args, **kwargs)

            async def steady(c, s):
                await lab.until(2 + s["at"])
                return await d.add(control, key=f"control{c}")(c, s["dur"])
            added = await asyncio.gather(*(submit(i, t) for i, t in enumerate(tasks)), *(steady(c, s) for c, s in enumerate(case["controls"])))
            troubled, controls = added[:len(tasks)], added[len(tasks):]
            await lab.quiesce(lambda: lab.backlog() == (0, 0) or lab.worker_ends, limit=120)
            need(not lab.worker_ends, f"a worker ended by itself: {lab.worker_ends} with {[t['kind'] for t in tasks]}", "worker-died")
            need(lab.backlog() == (0, 0), f"work remains: {lab.backlog()} with {[t['kind'] for t in tasks]}", "stuck")
            await asyncio.sleep(1)
            fresh = await d.add(control, key="fresh")(99, 0)
            await asyncio.sleep(1 + slack)
            for c in list(range(len(controls))) + [99]:
                runs = (len(lab.of("begin", c=c)), len(lab.of("end", c=c)))
                need(runs == (1, 1), f"control {c} beside {[t['kind'] for t in tasks]} began and ended {runs} times", "control")
            for c, ex in [*enumerate(controls), (99, fresh)]:
                await ex.sync()
                if case["ttl"]:
                    need(ex.state.value == "completed", f"control {c} is {ex.state.value}", "control-state")
            for i, t in enumerate(tasks):
                kind = t["kind"]
                seen.hit(kind)
                who = f"task {i} ({kind})"
                runs = len(lab.of("run", i=i))
                expected = "failed" if kind in RAISES else FALLEN[case["fallback"]] if kind == "unregistered" else OTHER[kind]
                if kind in ("unreduced", "lock", "deep-result") and not case["ttl"]:
                    expected = "completed"  # no result is stored
                retried = t["attempts"] if t["attempts"] > 1 and expected == "failed" else 1
                once = kind.startswith("perpet") or kind in ("unloadable", "unregistered", "few", "many", "unknown-kw", "retry-far", "retry-what", "expo")
                never = kind in ("few", "many", "unknown-kw", "dep", "dep-surrogate", "unregistered", "unloadable")
                if never:
                    need(runs == 0, f"{who}: its body ran {runs} times", "ran")
                elif not once:
                    need(runs == retried, f"{who}: ran {runs} times, not {retried}", "attempts")
                if kind == "unregistered" and case["fallback"] != "default":
                    need(fallen.count(((i,), {"k": i})) == 1, f"{who}: the fallback got {fallen}", "fallback")
                if not case["ttl"]:
                    need(lab.stored_state(K(case, i)) is None, f"{who}: left a record", "record")
                    continue
                await troubled[i].sync()
                state = troubled[i].state.value
                need(state == expected, f"{who}: ended {state} ({troubled[i].error}), not {expected}", "outcome")
                try:
                    result = await asyncio.wait_for(troubled[i].get_result(), 30)
                except asyncio.TimeoutError:
                    if kind not in ("timeout", "late"):
                        need(False, f"{who}: get_result hangs", "result")
                    need(expected == "failed", who, "result")
                except ExecutionCancelled:
                    need(expected == "cancelled", f"{who}: get_result says cancelled", "result")
                except Exception:
                    need(expected == "failed", f"{who}: get_result raises", "result")
                else:
                    need(expected == "completed", f"{who}: get_result returned {result!r}", "result")
                seen.nontrivial = seen.nontrivial or kind != "ok"
        await close_all(*ws)

    try:
        simulate(case, main)
    finally:
        LOADS["allowed"] = True


PARTS = [Part("trouble", cases, run, quick=600, thorough=20_000, rule="a task did something other than succeed")]
