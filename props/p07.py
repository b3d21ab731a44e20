"""P07: get_result() hands every waiter the task's own outcome, once it is there, and not before."""
from __future__ import annotations

from hypothesis import strategies as st

from docket import Retry
from props.p06 import build, same, value
from vlib.engine import Part, Seen
from vlib.gens import profiles, seeds, times
from vlib.lab import *


class Plain(Exception):
    pass


class TwoArgs(Exception):
    def __init__(self, code, detail):
        super().__init__(f"{code}: {detail}")
        self.code = code


class KwOnly(Exception):
    def __init__(self, *, what):
        super().__init__(what)


class Holder(Exception):
    pass


def make_error(kind: str):
    if kind == "value":
        return ValueError("bad", 3)
    if kind == "key":
        return KeyError("k")
    if kind == "os":
        return OSError(2, "no such thing", "file")
    if kind == "plain":
        e = Plain("x", (1, 2))
        e.extra = "kept"
        return e
    if kind == "timeout":
        return TimeoutError("its own")
    if kind == "group":
        return ExceptionGroup("g", [ValueError(1), KeyError(2)])
    if kind == "two-args":
        return TwoArgs(7, "d")
    if kind == "kw-only":
        return KwOnly(what="w")
    if kind == "unpicklable":
        import threading
        return Holder("holds", threading.Lock())
    if kind == "unicode":
        return ValueError("é😀\0")
    if kind == "assertion":
        return AssertionError()
    raise AssertionError(kind)


EXACT = ["value", "key", "os", "plain", "timeout", "group", "unicode", "assertion"]
LOSSY = ["two-args", "kw-only", "unpicklable"]

outcome = st.one_of(
    st.fixed_dictionaries({"kind": st.just("value"), "value": value}),
    st.fixed_dictionaries({"kind": st.just("error"), "error": st.sampled_from(EXACT + LOSSY)}),
    st.just({"kind": "none"}),
)


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(profiles),
        "ttl": draw(st.sampled_from([5, 900])),
        "runs": draw(st.lists(st.fixed_dictionaries({
            "outcome": outcome, "dur": st.sampled_from([0, 0.1, 2, 6]), "delay": st.sampled_from([0, 0, 1]),
            "fails": st.sampled_from([0, 0, 1]),
            "timeout_dep": st.booleans(),
            "waiters": st.lists(st.fixed_dictionaries({
                "at": times(6, 0.05), "timeout": st.sampled_from([None, None, 0.5, 3, 20]),
                "deadline": st.booleans(), "fresh": st.booleans()}), max_size=4),
        }), min_size=1, max_size=3)),
        "gap": draw(st.sampled_from([0, 1])),
    }


def check(got, out, where):
    kind, v = got
    if out["kind"] == "value":
        want = build(out["value"])
        need(kind == "value" and same(v, want), f"{where}: got {kind} {v!r}, the task returned {want!r}", "value")
    elif out["kind"] == "none":
        need(kind == "value" and v is None, f"{where}: got {kind} {v!r}, the task returned None", "none")
    elif out["error"] in EXACT:
        want = make_error(out["error"])
        need(kind == "error" and type(v) is type(want) and str(v) == str(want),
             f"{where}: got {kind} {v!r}, the task raised {want!r}", "error")
        if not isinstance(want, ExceptionGroup):
            need(v.args == want.args and getattr(v, "extra", None) == getattr(want, "extra", None),
                 f"{where}: got {v!r}, the task raised {want!r}", "error")
    else:
        want = make_error(out["error"])
        need(kind == "error" and isinstance(v, Exception) and type(want).__name__ in f"{type(v).__name__} {v}"
             and str(want).split("<")[0] in str(v),
             f"{where}: got {kind} {v!r}, the task raised {want!r}", "lossy-error")


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        from docket import Timeout

        lab = Lab(sim, execution_ttl=S(case["ttl"]))
        runs = case["runs"]

        async def body(i, attempt):
            r = runs[i]
            await asyncio.sleep(r["dur"])
            if attempt <= r["fails"]:
                raise RuntimeError("to be retried")
            lab.rec("end", token=i)
            if r["outcome"]["kind"] == "value":
                return build(r["outcome"]["value"])
            if r["outcome"]["kind"] == "error":
                raise make_error(r["outcome"]["error"])

        async def work(i: int, retry: Retry = Retry(attempts=3, delay=S(0.5))):
            r = runs[i]
            try:
                return await body(i, retry.attempt)
            except RuntimeError:
                raise
            except Exception:
                retry.attempts = 1
                raise

        async def guarded_work(i: int, retry: Retry = Retry(attempts=3, delay=S(0.5)), timeout: Timeout = Timeout(S(60))):
            try:
                return await body(i, retry.attempt)
            except RuntimeError:
                raise
            except Exception:
                retry.attempts = 1
                raise

        lab.tasks = [work, guarded_work]
        w = lab.start_worker("w0")
        async with lab.docket() as d:
            held = None
            for i, r in enumerate(runs):
                ex = await d.add(guarded_work if r["timeout_dep"] else work, when=utcnow() + S(r["delay"]), key=K(case, ""))(i)
                need(ex.disposition.value == "scheduled", f"run {i} refused", "refused")
                t0 = sim.now()

                async def waiter(n, q):
                    await lab.until(t0 + q["at"])
                    async with lab.docket() as d2:
                        e = (await d2.get_execution(K(case, ""))) if q["fresh"] else ex
                        need(e is not None, "no execution record", "record-gone")
                        s = sim.now()
                        kw = {}
                        if q["timeout"] is not None:
                            kw = {"deadline": utcnow() + S(q["timeout"])} if q["deadline"] else {"timeout": S(q["timeout"])}
                        try:
                            got = ("value", await e.get_result(**kw))
                        except TimeoutError as exc:
                            got = ("timeout" if "Timeout waiting for execution" in str(exc) else "error", exc)
                        except Exception as exc:  # noqa: BLE001
                            got = ("error", exc)
                        return n, q, s, sim.now(), got

                # waiters must start while the record exists
                last = r["dur"] * (1 + r["fails"]) + 0.5 * r["fails"] + r["delay"] + case["ttl"] - slack - 1.5
                qs = [q for q in r["waiters"] if q["at"] < last]
                jobs = [sim.node(f"c{i}.{n}").spawn(waiter(n, q)) for n, q in enumerate(qs)]
                await lab.quiesce(lambda: bool(lab.of("end", token=i)), limit=60)
                ended = lab.of("end", token=i)
                need(ended, f"run {i} never finished", "lost")
                end = ended[0]["t"]
                for j in jobs:
                    n, q, s, e, got = await j
                    where = f"run {i}, waiter {n} (t={s:.3f}..{e:.3f}, task ended {end:.3f})"
                    if got[0] == "timeout":
                        need(q["timeout"] is not None, f"{where}: timed out without a timeout", "timeout")
                        need(e >= s + q["timeout"] - 0.01, f"{where}: timed out before its {q['timeout']} s", "timeout-early")
                        need(s + q["timeout"] <= end + slack, f"{where}: timed out although the outcome was there", "timeout")
                        seen.hit("timed-out")
                    else:
                        need(e >= end, f"{where}: an outcome before the task ended", "early")
                        need(e <= max(s, end) + slack + 0.3, f"{where}: learned the outcome late", "late")
                        check(got, r["outcome"], where)
                        seen.hit("answered")
                        if s < end:
                            seen.hit("waited")
                            seen.nontrivial = True
                seen.hit(r["outcome"]["kind"] if r["outcome"]["kind"] != "error" else r["outcome"]["error"])
                await asyncio.sleep(slack + 0.3)
                st_ = lab.stored_state(K(case, ""))
                gone = sim.now() > end + case["ttl"] - slack
                need(gone or st_ == ("failed" if r["outcome"]["kind"] == "error" else "completed"),
                     f"run {i} recorded as {st_}", "state")
                if sim.now() > end + case["ttl"] - slack:
                    # the record's time to live has passed: it may be gone
                    await asyncio.sleep(slack + 1)
                    continue
                e2 = await d.get_execution(K(case, ""))
                try:
                    got = ("value", await e2.get_result(timeout=S(5)))
                except Exception as exc:  # noqa: BLE001
                    got = ("error", exc)
                check(got, r["outcome"], f"run {i}, afterwards")
                # a handle from an earlier run, brought up to date, has the same to say
                held = held or ex
                await held.sync()
                if sim.now() < end + case["ttl"] - slack:
                    try:
                        got = ("value", await held.get_result(timeout=S(5)))
                    except Exception as exc:  # noqa: BLE001
                        got = ("error", exc)
                    if sim.now() < end + case["ttl"] - slack:
                        check(got, r["outcome"], f"run {i}, by a kept handle")
                if r["outcome"]["kind"] == "error":
                    want = make_error(r["outcome"]["error"])
                    need(e2.error and type(want).__name__ in e2.error, f"error message {e2.error!r}", "message")
                await asyncio.sleep(case["gap"])
        need(not lab.worker_ends, f"a worker ended by itself: {lab.worker_ends}", "worker-died")
        await close_all(w)

    simulate(case, main)


PARTS = [Part("outcomes", cases, run, quick=900, thorough=50_000, rule="someone waited while the task was unfinished")]
