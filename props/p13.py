"""P13: a Timeout ends an attempt at its deadline, and never otherwise."""
from __future__ import annotations

from hypothesis import strategies as st

from docket import Retry, Timeout
from vlib.engine import Part, Seen
from vlib.gens import seeds, units
from vlib.lab import *

EDGE = 0.02

step = st.one_of(
    st.fixed_dictionaries({"do": st.just("sleep"), "s": st.sampled_from([0, 0.1, 0.3, 0.7, 1.3, 2.9, 5.1])}),
    st.fixed_dictionaries({"do": st.just("sleep"), "s": st.sampled_from([0, 0.1, 0.3, 0.7, 1.3, 2.9, 5.1])}),
    st.fixed_dictionaries({"do": st.just("extend"), "s": st.sampled_from([None, 0, 0.25, 0.6, 2, 7])}),
    st.just({"do": "check"}),
    st.fixed_dictionaries({"do": st.just("own"), "s": st.sampled_from([0.15, 0.55, 1.9])}),
    st.fixed_dictionaries({"do": st.just("gather"), "s": st.sampled_from([0.15, 0.9, 2.2])}),
)
attempt = st.fixed_dictionaries({
    "steps": st.lists(step, max_size=5),
    "finish": st.sampled_from(["return", "return", "error", "timeout-error", "after-own"]),
    "cancel": st.sampled_from(["raise", "raise", "swallow", "cleanup", "other"]),
})


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(st.sampled_from(["zero", "lan"])),
        "where": draw(st.sampled_from(["task", "task", "task", "worker"])),
        "base": draw(st.sampled_from([0.05, 0.5, 1, 2, 4])),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": st.sampled_from([0, 0, 0.35, 1.1]), "retries": st.integers(1, 3), "delay": st.sampled_from([0, 0.4]),
            "attempts": st.lists(attempt, min_size=1, max_size=3),
        }), min_size=1, max_size=4)),
    }


def script(t, n):
    return t["attempts"][min(n - 1, len(t["attempts"]) - 1)]


def expect(case, a):
    """-> (kind, seconds after the start, unclear) of one attempt."""
    now, deadline, unclear = 0.0, case["base"], False
    for s in a["steps"]:
        if s["do"] == "extend":
            if case["where"] == "task":
                deadline += case["base"] if s["s"] is None else s["s"]
            continue
        if s["do"] == "check":
            continue
        now += s["s"]
        if abs(now - deadline) < EDGE:
            unclear = True
        if now > deadline:
            return "interrupted", deadline, unclear
    return a["finish"], now, unclear


def run(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)

        async def act(i: int, n: int, timeout):
            t = case["tasks"][i]
            a = script(t, n)
            t0 = sim.now()
            lab.rec("start", i=i, n=n)
            expected_deadline = t0 + case["base"]
            try:
                for s in a["steps"]:
                    if s["do"] == "sleep":
                        await asyncio.sleep(s["s"])
                    elif s["do"] == "gather":
                        await asyncio.gather(asyncio.sleep(s["s"]), asyncio.sleep(s["s"] / 2))
                    elif s["do"] == "own":
                        try:
                            async with asyncio.timeout(s["s"]):
                                await asyncio.sleep(1000)
                        except TimeoutError:
                            pass
                    elif s["do"] == "extend" and timeout is not None:
                        timeout.extend(None if s["s"] is None else S(s["s"]))
                        expected_deadline += case["base"] if s["s"] is None else s["s"]
                    elif s["do"] == "check" and timeout is not None:
                        left = secs(timeout.remaining())
                        need(abs(left - (expected_deadline - sim.now())) < EDGE,
                             f"task {i}: {left:.3f} s remain, not {expected_deadline - sim.now():.3f}", "remaining")
                        need(not timeout.expired() or left <= 0, f"task {i}: expired with {left} s left", "remaining")
                        lab.rec("checked", i=i)
                if a["finish"] == "error":
                    raise ValueError(f"error {i} {n}")
                if a["finish"] == "timeout-error":
                    raise TimeoutError(f"own {i} {n}")
            except asyncio.CancelledError:
                lab.rec("interrupted", i=i, n=n)
                if a["cancel"] == "cleanup":
                    await asyncio.sleep(0.45)
                elif a["cancel"] == "other":
                    raise KeyError("cleanup failed") from None
                elif a["cancel"] == "swallow":
                    return "swallowed"
                raise
            except Violation as e:
                lab.rec("violation", message=str(e))
                raise
            lab.rec("finished", i=i, n=n)
            return f"ok {i} {n}"

        def make(i, t):
            retry_policy = Retry(attempts=t["retries"], delay=S(t["delay"]))
            if case["where"] == "task":
                async def fn(i: int, retry: Retry = retry_policy, timeout: Timeout = limit):
                    return await act(i, retry.attempt, timeout)
            else:
                async def fn(i: int, retry: Retry = retry_policy):
                    return await act(i, retry.attempt, None)
            fn.__name__ = f"task{i}"
            return fn

        limit = Timeout(S(case["base"]))  # one default instance shared by all tasks
        fns = [make(i, t) for i, t in enumerate(case["tasks"])]
        lab.tasks = fns
        w = lab.start_worker("w", **({"dependencies": [Timeout(S(case["base"]))]} if case["where"] == "worker" else {}))
        async with lab.docket() as d:
            exs = []
            for i, (fn, t) in enumerate(zip(fns, case["tasks"])):
                await lab.until(t["at"])
                exs.append(await d.add(fn, key=K(case, i))(i))
            await lab.quiesce(lambda: all(lab.stored_state(K(case, i)) in ("completed", "failed", "cancelled")
                                          for i in range(len(fns))), limit=250)
            await asyncio.sleep(1)
            for e in lab.of("violation"):
                raise Violation(e["message"], "remaining")
            for i, t in enumerate(case["tasks"]):
                starts = lab.of("start", i=i)
                final = None
                n = 0
                for n, s in enumerate(starts, 1):
                    need(s["n"] == n, f"task {i}: attempt {s['n']} comes {n}th", "attempts")
                    a = script(t, n)
                    kind, after, unclear = expect(case, a)
                    cut = lab.of("interrupted", i=i, n=n)
                    done = lab.of("finished", i=i, n=n)
                    if unclear:
                        seen.hit("edge")
                    elif kind == "interrupted":
                        need(cut, f"task {i}: attempt {n} was not interrupted {after} s after its start", "not-interrupted")
                        d_ = cut[0]["t"] - s["t"]
                        need(abs(d_ - after) < EDGE, f"task {i}: attempt {n} was interrupted after {d_:.3f} s, not {after}", "deadline")
                        seen.hit("interrupted")
                        seen.nontrivial = True
                    else:
                        need(not cut, f"task {i}: attempt {n} was interrupted though it ends after {after} s, in time", "interrupted")
                        need(kind not in ("return", "after-own") or done, f"task {i}: attempt {n} didn't finish", "unfinished")
                    ok = bool(done)
                    if ok:
                        final = "completed"
                        break
                    final = "failed"
                need(final == "completed" or n == t["retries"], f"task {i}: {n} of {t['retries']} attempts", "attempts")
                need(n == len(starts), f"task {i}: attempted again after success", "attempts")
                need(lab.stored_state(K(case, i)) == final, f"task {i}: recorded {lab.stored_state(K(case, i))}, not {final}", "state")
                a = script(t, n)
                kind, _, unclear = expect(case, a)
                try:
                    got = await exs[i].get_result(timeout=S(3))
                    need(final == "completed" and got == f"ok {i} {n}", f"task {i}: result {got!r}", "result")
                except Violation:
                    raise
                except Exception as e:  # noqa: BLE001
                    need(final == "failed", f"task {i}: completed, but its result is {e!r}", "result")
                    if unclear:
                        continue
                    want = {"error": (ValueError, f"error {i} {n}"), "timeout-error": (TimeoutError, f"own {i} {n}"),
                            "interrupted": (KeyError if a["cancel"] == "other" else TimeoutError, None)}[kind]
                    need(isinstance(e, want[0]) and (want[1] is None or str(e) == want[1]), f"task {i}: raised {e!r}, not {want}", "error")
                    if kind == "interrupted" and a["cancel"] != "other":
                        need(K(case, i) in str(e), f"task {i}: {e!r} does not name the task", "error")
            need(lab.backlog() == (0, 0), f"left over: {lab.backlog()}", "leftover")
            seen.hit("checks", len(lab.of("checked")))
        await close_all(w)

    simulate(case, main)


PARTS = [Part("deadlines", cases, run, quick=500, thorough=30_000, rule="an attempt was interrupted")]
