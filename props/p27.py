"""P27: what the tasks of a docket leave in storage, and for how long."""
import contextlib

from hypothesis import strategies as st

from docket import ConcurrencyLimit, Cooldown, Debounce, ExponentialRetry, Perpetual, Progress, RateLimit, Retry, Timeout
from docket.execution import ExecutionCancelled
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *

KINDS = ["plain", "plain", "retry", "timeout", "perpetual", "limited", "cooldown", "debounce", "ratelimit", "ratedrop", "unknown",
         "unpicklable", "spawner"]
FAULTS = ["kill_before", "kill_after", "drop_request", "drop_reply"]
COMMANDS = ["xreadgroup", "xautoclaim", "evalsha", "execute_pipeline", None]


class Nothing:
    async def increment(self): ...


@st.composite
def cases(draw, tier):
    workers = draw(st.integers(1, 3))
    keys = draw(st.integers(1, 5))
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "lan", "wan"])),
        "ttl": draw(st.sampled_from([0, 1, 4, 60, 60])),
        "workers": [{"concurrency": draw(st.sampled_from([1, 2, 10])), "restart": draw(st.sampled_from([0.5, 4]))} for _ in range(workers)],
        "ops": draw(st.lists(st.fixed_dictionaries({
            "at": times(12, 0.05), "key": st.integers(0, keys - 1),
            "op": st.sampled_from(["add"] * 6 + ["replace", "replace", "cancel", "cancel", "clear", "strike", "restore"]),
            "kind": st.sampled_from(KINDS), "delay": st.sampled_from([0, 0, 0, 1, 7]), "dur": st.sampled_from([0, 0, 0.2, 1, 5]),
            "ends": st.sampled_from(["value", "none", "raise", "cancel-self"]),
        }), min_size=1, max_size=14)),
        "faults": draw(st.lists(st.fixed_dictionaries({
            "worker": st.integers(0, workers - 1), "cmd": st.sampled_from(COMMANDS), "nth": st.integers(1, 25),
            "kind": st.sampled_from(FAULTS)}), max_size=2)),
    }


def run(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]), name=["d", "dock:et", "d{x}"][case["seed"] % 3])
        name = lab.docket_kw["name"]
        turns: dict = {}

        async def end(i: int) -> object:
            o = case["ops"][i]
            await asyncio.sleep(o["dur"])
            if o["ends"] == "raise":
                raise ValueError("scripted")
            return {"value": i} if o["ends"] == "value" else None

        async def plain(i: int, p: Progress = Progress()):
            await p.set_total(5)
            await p.increment(2)
            try:
                return await end(i)
            finally:
                await p.set_message("over")

        async def retry(i: int, p: Progress = Progress(), r: Retry = Retry(attempts=3, delay=S(1.5))):
            await p.increment(r.attempt)
            return await end(i)

        async def timeout(i: int, t: Timeout = Timeout(S(0.5))):
            return await end(i)

        async def perpetual(i: int, p: Perpetual = Perpetual(every=S(0.5))):
            turns[i] = turns.get(i, 0) + 1
            if turns[i] > 3:
                p.cancel()
            return await end(i)

        async def limited(i: int, c: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
            return await end(i)

        async def cooldown(i: int, c: Cooldown = Cooldown(S(2))):
            return await end(i)

        async def debounce(i: int, c: Debounce = Debounce(S(0.5))):
            return await end(i)

        async def ratelimit(i: int, c: RateLimit = RateLimit(2, per=S(2))):
            return await end(i)

        async def ratedrop(i: int, c: RateLimit = RateLimit(1, per=S(2), drop=True)):
            return await end(i)

        async def unknown(i: int): ...

        async def unpicklable(i: int):
            await end(i)
            return (x for x in "abc")

        async def spawner(i: int):
            async with lab.docket() as d:
                await d.add(plain, key=f"{K(case, i)}.child")(i)

        fns = {f.__name__: f for f in (plain, retry, timeout, perpetual, limited, cooldown, debounce, ratelimit, ratedrop, unknown, unpicklable, spawner)}
        lab.tasks = [f for f in fns.values() if f is not unknown]
        ws = []
        for i, w in enumerate(case["workers"]):
            sim.node(f"w{i}").faults = [{k: f[k] for k in ("cmd", "nth", "kind")} for f in case["faults"] if f["worker"] == i]
            ws.append(lab.start_worker(f"w{i}", restart_after=w["restart"], concurrency=w["concurrency"],
                                       redelivery_timeout=S(4), reconnection_delay=S(1), minimum_check_interval=S(0.1)))
        fixed = {f"{name}:{k}" for k in ("stream", "workers", "queue", "strikes")}

        def lasting() -> dict[str, int]:
            """All keys but the docket's own, with their time to live."""
            out = {}
            for k in sim.server.q("keys", "*"):
                k = k.decode()
                if k not in fixed and not k.startswith((f"{name}:worker-tasks:", f"{name}:task-workers:")):
                    out[k] = sim.server.q("ttl", k)
            return out

        async with lab.docket() as d:
            struck = set()
            for i, o in sorted(enumerate(case["ops"]), key=lambda p: p[1]["at"]):
                await lab.until(1 + o["at"])
                key, f = K(case, o["key"]), fns[o["kind"]]
                if o["op"] in ("add", "replace"):
                    when = utcnow() + S(o["delay"])
                    await (d.add(f, when, key) if o["op"] == "add" else d.replace(f, when, key))(i)
                elif o["op"] == "cancel":
                    await d.cancel(key)
                elif o["op"] == "clear":
                    await d.clear()
                elif o["op"] == "strike":
                    await d.strike(f)
                    struck.add(f)
                else:
                    await d.restore(f)
                seen.hit(o["op"])

            def idle() -> bool:
                return lab.backlog() == (0, 0) and not [k for k in lasting() if ":concurrency:" in k and k.endswith(":waiters")]

            ok = await lab.quiesce(idle, limit=300, step=0.25)
            need(ok, f"not idle after 300 s: backlog {lab.backlog()}, {lasting()}", "busy")
            await asyncio.sleep(3 * SLACK[case["lat"]] + 0.5)
            forever = sorted(k for k, ttl in lasting().items() if ttl == -1)
            need(not forever, f"everything is done, and {forever} would stay for good", "leak")
            left = lasting()
            seen.hit("left", len(left))
            worst = max(left.values(), default=0)
            seen.nontrivial = bool(left)
            await asyncio.sleep(worst + 1)
            need(not lasting(), f"still there at t={sim.now():.3f}: {lasting()}", "stays")
            await close_all(*ws)

    simulate(case, main)



life = st.fixed_dictionaries({
    "kind": st.sampled_from(["plain", "plain", "retry", "dropped", "cancelled", "timeout", "unpicklable"]),
    "delay": st.sampled_from([0, 0, 1, 9, 80]), "dur": st.sampled_from([0, 0, 0.7, 20]),
    "ends": st.sampled_from(["value", "none", "raise"]), "gap": st.sampled_from([0.4, 1, 3, 9, 70]),
})


@st.composite
def lifetimes(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan"])), "ttl": draw(st.sampled_from([2, 5, 5, 60, 9000, 86_400, 90_061, 30 * 86_400 + 7])),
        "keys": draw(st.lists(st.lists(life, min_size=1, max_size=3), min_size=1, max_size=4)),
    }


def run_lifetimes(case, seen: Seen) -> None:
    """Each key lives its lives one after another; a watcher looks at the record all the time."""
    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]))
        slack = SLACK[case["lat"]]

        async def plain(o: dict, token: str, p: Progress = Progress()):
            await p.increment()
            await asyncio.sleep(o["dur"])
            if o["ends"] == "raise":
                raise ValueError(token)
            return token if o["ends"] == "value" else None

        async def retry(o: dict, token: str, r: Retry = Retry(attempts=2, delay=S(3))):
            return await plain(o, token, Nothing())

        async def dropped(o: dict, token: str, c: Cooldown = Cooldown(S(10**7))): ...

        async def timeout(o: dict, token: str, t: Timeout = Timeout(S(0.5))):
            await asyncio.sleep(o["dur"])
            return token

        async def unpicklable(o: dict, token: str):
            await asyncio.sleep(o["dur"])
            return (x for x in token)

        fns = {f.__name__: f for f in (plain, retry, dropped, timeout, unpicklable)}
        lab.tasks = list(fns.values())
        w = lab.start_worker("w", concurrency=20, minimum_check_interval=S(0.5))

        async def key(i: int, lives: list) -> None:
            k = K(case, i)
            async with lab.docket() as d:
                first = sim.now()
                for n, o in enumerate(lives):
                    token = f"{i}.{n}"
                    f = fns["plain" if o["kind"] == "cancelled" else o["kind"]]
                    e = await d.add(f, utcnow() + S(o["delay"]) if o["delay"] else None, k)(o, token)
                    added = sim.now()
                    ended = None
                    while ended is None:
                        got = await d.get_execution(k)
                        need(got is not None, f"{k} was added at t={added:.3f} (life {n}), and at t={sim.now():.3f} its record is gone", "lost")
                        if got.state.value in ("completed", "failed", "cancelled"):
                            ended = sim.now()
                            break
                        state = lab.stored_state(k)
                        need(state not in ("scheduled", "queued", "running") or sim.server.q("ttl", f"d:runs:{k}") == -1,
                             f"{k} is {state} in its life {n}, and its record is about to expire", "fading")
                        need(sim.now() < added + o["delay"] + o["dur"] * 2 + 10, f"{k} is {got.state.value} still, in its life {n}", "stuck")
                        if o["kind"] == "cancelled" and sim.now() > added + (o["delay"] + o["dur"]) / 2:
                            await d.cancel(k)
                        await asyncio.sleep(0.2 if o["delay"] < 5 else 1)
                    want = {"dropped": "cancelled", "cancelled": got.state.value,
                            "timeout": "failed" if o["dur"] > 0.5 else "completed", "unpicklable": got.state.value}.get(
                        o["kind"], "failed" if o["ends"] == "raise" else "completed")
                    need(got.state.value == want, f"{k} is {got.state.value} after its life {n} {o}", "state")
                    if case["ttl"] > 100:
                        # too long to wait for
                        for x in sim.server.q("keys", "*"):
                            x = x.decode()
                            if k in x and x.startswith("d:") and not x.endswith(":lock"):
                                left = sim.server.q("ttl", x)
                                since = added if x == f"d:runs:{k}" else first
                                need(sim.now() - since + slack + 1 > case["ttl"] - left >= -1,
                                     f"{x} is to be kept for {case['ttl']} s, and will go in {left} s", "gone")
                        seen.hit("long")
                    last = n == len(lives) - 1
                    until = ended + (150 if last else o["gap"])
                    while sim.now() < until:
                        age = sim.now() - ended
                        got = await d.get_execution(k)
                        if age < case["ttl"] - 1.3 - slack:
                            need(got is not None and got.state.value == want,
                                 f"{k} ended {want}; {age:.3f} s later its record is {got and got.state.value}, though kept for {case['ttl']} s", "gone")
                            if o["kind"] in ("plain", "retry", "timeout"):
                                with contextlib.suppress(Exception) if want == "failed" else contextlib.nullcontext():
                                    value = await got.get_result(timeout=S(1))
                                    need(want == "completed" and value == (None if o["kind"] != "timeout" and o["ends"] == "none" else token),
                                         f"{k} returned {token}, read as {value!r} {age:.3f} s later", "result")
                            seen.hit("kept")
                        elif age > case["ttl"] + 1.3 + slack:
                            left = [x.decode() for x in sim.server.q("keys", "*") if (k in x.decode()) and x.decode().startswith("d:")
                                    and not x.decode().endswith(":lock")]
                            need(not left, f"{k} ended {age:.3f} s ago, was to be kept for {case['ttl']} s, and still there are {left}", "stays")
                            seen.hit("expired")
                            break
                        await asyncio.sleep(min(1 + case["ttl"] / 10, max(until - sim.now(), 0.01)))

        async with lab.docket() as d:
            await d.add(dropped, key="first")({}, "")
            await asyncio.sleep(2)
        await asyncio.gather(*(key(i, lives) for i, lives in enumerate(case["keys"])))
        seen.nontrivial = any(len(lives) > 1 for lives in case["keys"])
        await close_all(w)

    simulate(case, main, horizon=1_000_000, max_turns=6_000_000)


PARTS = [Part("leaks", cases, run, quick=400, thorough=20_000, rule="something was left to expire"),
         Part("lifetimes", lifetimes, run_lifetimes, quick=150, thorough=8_000, rule="a key was used more than once")]
