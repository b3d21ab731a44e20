"""P10: retries: as many attempts as allowed, each after the delay its policy says, with the same arguments."""
from __future__ import annotations

from hypothesis import strategies as st

from docket import ExponentialRetry, Retry
from vlib.engine import Part, Seen
from vlib.gens import profiles, seeds, units
from vlib.lab import *


class Odd(Exception):
    pass


step = st.one_of(
    st.just({"do": "raise"}), st.just({"do": "raise"}),
    st.fixed_dictionaries({"do": st.just("after"), "s": st.sampled_from([0, 0.3, 1.7, 6])}),
    st.fixed_dictionaries({"do": st.just("at"), "s": st.sampled_from([-3, 0, 0.7, 4])}),
)


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(profiles), "workers": draw(st.integers(1, 2)),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "policy": st.sampled_from(["linear", "linear", "exponential", "exponential", "linear-forever",
                                       "exponential-forever", "none"]),
            "attempts": st.integers(1, 6),
            "delay": st.sampled_from([0, 0.25, 1, 1.5, 3]),
            "over": st.sampled_from([0, 0.1, 1, 3, 64]),
            "when": st.sampled_from([0, 0, 0.6]),
            "dur": st.sampled_from([0, 0, 0.4]),
            "steps": st.lists(step, max_size=9 if tier == "thorough" else 7),
            "more": st.sampled_from([0, 0, 0, 13, 40]),
        }), min_size=1, max_size=3)),
    }


def steps(t):
    """Those that retry forever may well have to."""
    return [{"do": "raise"}] * (t["more"] if t["policy"].endswith("forever") else 0) + t["steps"]


def expected(t):
    """[(delay before this attempt)], final outcome."""
    limit = {"linear": t["attempts"], "exponential": t["attempts"], "none": 1}.get(t["policy"])
    delays = [None]
    k = 1
    while True:
        if k > len(steps(t)):
            return delays, "completed"
        s = steps(t)[k - 1]
        if limit is not None and k >= limit:
            return delays, "failed"
        if s["do"] == "raise":
            d = t["delay"]
            if t["policy"].startswith("exponential") and k > 1:
                d = min(t["delay"] * 2 ** (k - 1), (t["delay"] + t["over"]))
        else:
            d = max(s["s"], 0)
        delays.append(d)
        k += 1


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(10**6))
        fns = []

        async def act(i, retry, note):
            t = case["tasks"][i]
            attempt = retry.attempt if retry is not None else 1
            lab.rec("start", i=i, attempt=attempt, note=note)
            await asyncio.sleep(t["dur"])
            lab.rec("end", i=i, attempt=attempt)
            if attempt > len(steps(t)):
                return f"ok{i}"
            s = steps(t)[attempt - 1]
            if s["do"] == "raise" or retry is None:
                raise Odd(f"failure {attempt}")
            if s["do"] == "after":
                retry.after(S(s["s"]))
            retry.at(utcnow() + S(s["s"]))

        def make(i, t):
            linear = t["policy"] == "linear"
            if t["policy"] == "none":
                async def fn(i: int, note: str):
                    return await act(i, None, note)
            else:
                if linear:
                    policy = Retry(attempts=t["attempts"], delay=S(t["delay"]))
                elif t["policy"] == "exponential":
                    policy = ExponentialRetry(attempts=t["attempts"], minimum_delay=S(t["delay"]), maximum_delay=S((t["delay"] + t["over"])))
                elif t["policy"] == "linear-forever":
                    policy = Retry.forever(delay=S(t["delay"]))
                else:
                    policy = ExponentialRetry.forever(delay=S(t["delay"]), maximum_delay=S((t["delay"] + t["over"])))

                async def fn(i: int, note: str, retry: Retry = policy):
                    return await act(i, retry, note)
            fn.__name__ = f"task{i}"
            return fn

        fns = [make(i, t) for i, t in enumerate(case["tasks"])]
        lab.tasks = fns
        ws = [lab.start_worker(f"w{i}") for i in range(case["workers"])]
        plan = [expected(t) for t in case["tasks"]]
        async with lab.docket() as d:
            exs = [await d.add(fn, when=utcnow() + S(t["when"]) if t["when"] else None, key=K(case, i))(i, note=f"n{i}")
                   for i, (fn, t) in enumerate(zip(fns, case["tasks"]))]
            limit = max(sum(x or 0 for x in p[0]) for p in plan) + (15 * 9 + 4 * 40) * slack + 80
            await lab.quiesce(lambda: all(lab.stored_state(K(case, i)) in ("completed", "failed")
                                          for i in range(len(fns))), limit=limit)
            await asyncio.sleep(2 * slack + 1)
            for i, t in enumerate(case["tasks"]):
                delays, final = plan[i]
                starts, ends = lab.of("start", i=i), lab.of("end", i=i)
                need([s["attempt"] for s in starts] == list(range(1, len(delays) + 1)),
                     f"task {i}: attempts {[s['attempt'] for s in starts]}, expected 1..{len(delays)}", "attempts")
                need(all(s["note"] == f"n{i}" for s in starts), f"task {i}: other arguments on a retry", "arguments")
                for k in range(1, len(delays)):
                    gap = starts[k]["t"] - ends[k - 1]["t"]
                    need(gap >= delays[k] - 0.002, f"task {i} ({t['policy']}): attempt {k + 1} came {gap:.3f} s after the "
                         f"failure, not {delays[k]} s", "early")
                    need(gap <= delays[k] + 2 * slack + 1.1, f"task {i} ({t['policy']}): attempt {k + 1} came {gap:.3f} s "
                         f"after the failure, not {delays[k]} s", "late")
                need(lab.stored_state(K(case, i)) == final, f"task {i}: recorded {lab.stored_state(K(case, i))}, not {final}", "final")
                try:
                    got = await exs[i].get_result(timeout=S(5))
                    need(final == "completed" and got == f"ok{i}", f"task {i}: result {got!r}", "result")
                except TimeoutError:
                    raise Violation(f"task {i}: no result", "result") from None
                except Odd as e:
                    need(final == "failed" and str(e) == f"failure {len(delays)}", f"task {i}: raised {e!r}", "result")
                except Exception as e:  # noqa: BLE001
                    s = steps(t)[len(delays) - 1]
                    need(final == "failed" and s["do"] != "raise" and type(e).__name__ == "ForcedRetry",
                         f"task {i}: raised {e!r}", "result")
                seen.hit(t["policy"])
                seen.hit("retries", len(delays) - 1)
                if len(delays) > 2:
                    seen.nontrivial = True
                if any(t["policy"].startswith("exp") and x == (t["delay"] + t["over"]) for x in delays):
                    seen.hit("capped")
                if any(s["do"] != "raise" for s in steps(t)[:len(delays) - 1]):
                    seen.hit("overridden")
            need(lab.backlog() == (0, 0), f"left over: {lab.backlog()}", "leftover")
        await close_all(*ws)

    simulate(case, main)


# -- the delay arithmetic alone, far beyond what a run can reach --------------


@st.composite
def math_cases(draw, tier):
    return {"attempt": draw(st.integers(1, 3000)), "min_us": draw(st.integers(0, 10**13)),
            "over_us": draw(st.integers(0, 10**14))}


def run_math(case, seen: Seen) -> None:
    from datetime import timedelta

    from docket.dependencies._base import current_execution

    class E:
        attempt = case["attempt"]

    async def go():
        tok = current_execution.set(E())
        try:
            policy = ExponentialRetry(attempts=None, minimum_delay=timedelta(microseconds=case["min_us"]),
                                      maximum_delay=timedelta(microseconds=(case["min_us"] + case["over_us"])))
            return await policy.__aenter__()
        finally:
            current_execution.reset(tok)

    async def main(sim):
        r = await go()
        k = case["attempt"]
        want = case["min_us"] if k == 1 else min(case["min_us"] * 2 ** (k - 1), (case["min_us"] + case["over_us"]))
        need(r.delay // timedelta(microseconds=1) == want,
             f"attempt {k} (min {case['min_us']} us, max {case['min_us'] + case['over_us']} us): {r.delay}, not {want} us", "delay")
        need(r.attempt == k, f"attempt {r.attempt}, not {k}", "attempt")
        seen.nontrivial = k > 1

    simulate({"seed": 0, "lat": "zero"}, main)


PARTS = [
    Part("policies", cases, run, quick=700, thorough=40_000, rule="a task was attempted three times or more"),
    Part("delays", math_cases, run_math, quick=400, thorough=10_000, rule="not the first attempt"),
]
