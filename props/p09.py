"""P09: the published life of a task: every subscriber sees it, in order, complete; reading it agrees."""
from __future__ import annotations

from hypothesis import strategies as st

from docket import Retry
from docket.execution import ExecutionState
from vlib.engine import Part, Seen
from vlib.gens import profiles, seeds, times
from vlib.lab import *

TERMINAL = {"completed", "failed", "cancelled"}


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(profiles),
        "workers": draw(st.integers(1, 2)), "concurrency": draw(st.sampled_from([1, 2, 10])),
        "tasks": draw(st.lists(st.fixed_dictionaries({
            "at": times(3, 0.05), "delay": st.sampled_from([0, 0, 0.5, 6]),
            "dur": st.sampled_from([0, 0, 0.2, 2, 5]),
            "fails": st.sampled_from([0, 0, 1, 2, 9]), "attempts": st.sampled_from([1, 2, 3]),
            "retry_delay": st.sampled_from([0, 0, 0.5, 1.5]),
            "cancel": st.one_of(st.none(), st.none(), st.none(), times(8, 0.05)),
            "subs": st.lists(times(10, 0.05), max_size=3),
            "polls": st.lists(times(12, 0.05), max_size=4),
        }), min_size=1, max_size=4 if tier == "thorough" else 3)),
    }


def path(t) -> list[str]:
    """Every state the task is published in, from its submission on."""
    out = []
    runs = min(t["attempts"], t["fails"] + 1)
    for n in range(runs):
        delay = t["delay"] if n == 0 else t["retry_delay"]
        out += (["scheduled"] if delay > 0 else []) + ["queued", "running"]
    return out + ["failed" if t["fails"] >= t["attempts"] else "completed"]


def check_live(states: list[str], initial: str, full: list[str], cancelled: bool, where: str) -> None:
    """The live events are everything published from some moment on, and the initial state misses nothing."""
    if cancelled and (states or [initial])[-1] == "cancelled":
        fulls = [full[:n] + ["cancelled"] for n in range(1, len(full) + 1)]
        # an attempt that was being interrupted may still have been put back for a retry
    else:
        fulls = [full]
    for f in fulls:
        for j in range(len(f) + 1):
            if f[j:] == states and any(f[i] == initial for i in range(max(j - 1, 0), len(f))):
                return
    raise Violation(f"{where}: initial state {initial}, then {states}; the task's life was {full}"
                    f"{' (with a cancellation)' if cancelled else ''}", "events")


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)

        async def work(i: int, retry: Retry = Retry(attempts=9)):
            t = case["tasks"][i]
            retry.attempts, retry.delay = t["attempts"], S(t["retry_delay"])
            lab.rec("start", i=i, attempt=retry.attempt)
            try:
                await asyncio.sleep(t["dur"])
            finally:
                lab.rec("end", i=i, attempt=retry.attempt)
            if retry.attempt <= t["fails"]:
                raise ValueError(f"scripted {i}")
            return i

        lab.tasks = [work]
        ws = [lab.start_worker(f"w{i}", concurrency=case["concurrency"]) for i in range(case["workers"])]
        await asyncio.sleep(1)

        async def life(i, t):
            await lab.until(1 + t["at"])
            async with lab.docket() as d:
                t0 = sim.now()
                ex = await d.add(work, when=utcnow() + S(t["delay"]) if t["delay"] else None, key=K(case, i))(i)
                full = path(t)
                jobs = []

                async def subscriber(n, at):
                    await lab.until(t0 + at)
                    where = f"task {i}, subscriber {n} from t={sim.now():.3f}"
                    async with lab.docket() as d2:
                        e = ex if n == 0 else await d2.get_execution(K(case, i))
                        need(e is not None, f"{where}: no record", "record-gone")
                        ready = asyncio.Event()
                        events, initial, progress = [], None, None
                        ready_at = None
                        gen = e.subscribe(ready=ready)
                        async for ev in gen:
                            if initial is None:
                                need(ev["type"] == "state", f"{where}: first event is {ev}", "first")
                                need(ready.is_set(), f"{where}: the first event came before the subscription was live", "ready")
                                initial = ev
                                st0 = ExecutionState(ev["state"]).value
                            elif progress is None and ev["type"] == "progress":
                                progress = ev
                                if st0 in TERMINAL and n % 2:
                                    break
                            elif ev["type"] == "state":
                                need(isinstance(ev["state"], ExecutionState), f"{where}: {ev}", "event-type")
                                need(ev["key"] == K(case, i), f"{where}: an event for {ev['key']}", "event-key")
                                events.append(ev)
                                if ev["state"].value in TERMINAL:
                                    break
                            if st0 in TERMINAL and not events:
                                # whatever was buffered has been delivered by now
                                break
                        await gen.aclose()
                        check_live([ev["state"].value for ev in events], st0, full, t["cancel"] is not None, where)
                        for ev in events:
                            if ev["state"].value == "running":
                                need(ev.get("worker", "").startswith("w") and ev.get("started_at"),
                                     f"{where}: running without worker or time: {ev}", "fields")
                            if ev["state"].value in ("completed", "failed"):
                                need(ev.get("completed_at"), f"{where}: {ev}", "fields")
                            if ev["state"].value == "failed":
                                need(f"scripted {i}" in (ev.get("error") or ""), f"{where}: {ev}", "fields")
                        seen.hit("live-events", len(events))
                        if len(events) >= 2:
                            seen.nontrivial = True

                async def poller(n, at):
                    await lab.until(t0 + at)
                    async with lab.docket() as d2:
                        s = sim.now()
                        e = await d2.get_execution(K(case, i))
                        return s, sim.now(), e

                for n, at in enumerate([0.0, *t["subs"]]):
                    jobs.append(sim.node(f"s{i}.{n}").spawn(subscriber(n, at)))
                polls = [sim.node(f"p{i}.{n}").spawn(poller(n, at)) for n, at in enumerate(t["polls"])]
                if t["cancel"] is not None:
                    await lab.until(t0 + t["cancel"])
                    await d.cancel(K(case, i))
                    seen.hit("cancel")
                for j in jobs:
                    done = await lab.quiesce(j.done, limit=80)
                    need(done, f"task {i}: a subscriber never saw its end", "stuck")
                    await j
                await asyncio.sleep(slack)
                starts, ends = lab.of("start", i=i), lab.of("end", i=i)
                final = lab.stored_state(K(case, i))
                want = full[-1]
                need(final == want or (t["cancel"] is not None and final == "cancelled"),
                     f"task {i} is recorded {final}, not {want}", "final")
                last = ends[-1]["t"] if ends else None
                for p in polls:
                    s, e_, ex2 = await p
                    where = f"task {i}, read t={s:.3f}..{e_:.3f}"
                    need(ex2 is not None, f"{where}: no record", "record-gone")
                    got = ex2.state.value
                    if final == "cancelled":
                        continue
                    inside = [k for k in range(len(ends)) if starts[k]["t"] <= s and e_ <= ends[k]["t"]]
                    if inside:
                        need(got == "running" and ex2.worker and ex2.started_at and not ex2.completed_at,
                             f"{where}: {got} by {ex2.worker} from {ex2.started_at} to {ex2.completed_at} "
                             f"while attempt {inside[0] + 1} was running", "read-running")
                        need(secs(utcnow() - ex2.started_at) >= sim.now() - starts[inside[0]]["t"] - 0.001,
                             f"{where}: started_at {ex2.started_at} is after the start", "read-started")
                        seen.hit("read-running")
                    elif not starts or e_ < starts[0]["t"] - slack:
                        need(got in ("scheduled", "queued"), f"{where}: {got} before any start", "read-before")
                        seen.hit("read-before")
                    elif last is not None and s > last + slack:
                        need(got == want, f"{where}: {got} after the end", "read-after")
                        need(ex2.completed_at and ex2.started_at and ex2.started_at <= ex2.completed_at,
                             f"{where}: {ex2.started_at} .. {ex2.completed_at}", "read-times")
                        need((ex2.error is None) == (want == "completed"), f"{where}: error {ex2.error!r}", "read-error")
                        seen.hit("read-after")
                    elif last is not None and e_ < last:
                        need(got not in TERMINAL, f"{where}: {got} before the end", "read-early")
                        seen.hit("read-between")
                seen.hit(final)

        await asyncio.gather(*(life(i, t) for i, t in enumerate(case["tasks"])))
        need(not lab.worker_ends, f"a worker ended by itself: {lab.worker_ends}", "worker-died")
        await close_all(*ws)

    simulate(case, main)



@st.composite
def lives(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(profiles), "ttl": draw(st.sampled_from([900, 900, 3])),
        "runs": draw(st.lists(st.fixed_dictionaries({
            "returns": st.sampled_from(["value", "none", "error"]), "dur": st.sampled_from([0, 0.4, 2]),
            "delay": st.sampled_from([0, 0, 1.5]), "fails": st.sampled_from([0, 0, 1]), "gap": st.sampled_from([0, 0, 1, 8]),
            "reads": st.lists(st.tuples(times(7, 0.05), st.integers(0, 2)), max_size=4),
        }), min_size=2, max_size=4)),
    }


def run_handles(case, seen: Seen) -> None:
    """Handles kept over the lives of one key always show its present one."""
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]))

        async def work(i: int, retry: Retry = Retry(attempts=2, delay=S(1.5))):
            r = case["runs"][i]
            lab.rec("start", i=i)
            try:
                await asyncio.sleep(r["dur"])
            finally:
                lab.rec("end", i=i)
            if retry.attempt <= r["fails"]:
                raise ValueError("to be retried")
            if r["returns"] == "error":
                retry.attempts = 1
                raise LookupError(f"scripted {i}")
            return f"value {i}" if r["returns"] == "value" else None

        lab.tasks = [work]
        w = lab.start_worker("w0")
        await asyncio.sleep(1)
        key = K(case, "")
        async with lab.docket() as d:
            handles: list = []
            over = None  # when the record of the last run was written
            for i, r in enumerate(case["runs"]):
                ex = await d.add(work, when=utcnow() + S(r["delay"]) if r["delay"] else None, key=key)(i)
                need(ex.disposition.value == "scheduled", f"run {i} refused", "refused")
                t0 = sim.now()
                while len(handles) < 3:
                    handles.append(ex if len(handles) != 1 else await d.get_execution(key) or ex)

                def want_outcome(h, where):
                    need(h.state.value == ("failed" if r["returns"] == "error" else "completed"), f"{where}: {h.state.value}", "handle-after")
                    need(h.completed_at and h.started_at and h.started_at <= h.completed_at and h.worker,
                         f"{where}: {h.started_at} .. {h.completed_at} by {h.worker}", "handle-after")
                    need((h.error or "") == (f"LookupError: scripted {i}" if r["returns"] == "error" else ""),
                         f"{where}: error {h.error!r}", "handle-after")
                    need((h.result_key is None) == (r["returns"] == "none"), f"{where}: result at {h.result_key!r}", "handle-after")

                async def read(at, n):
                    await lab.until(t0 + at)
                    h = handles[n]
                    s = sim.now()
                    await h.sync()
                    e = sim.now()
                    shown = (h.state.value, h.worker, h.started_at, h.completed_at, h.error, h.result_key)
                    starts, ends = lab.of("start", i=i), lab.of("end", i=i)
                    runs = 1 + r["fails"]
                    where = f"run {i}, handle {n} read t={s:.3f}..{e:.3f}"
                    inside = [k for k in range(len(starts)) if starts[k]["t"] <= s and (len(ends) <= k or e <= ends[k]["t"])]
                    done = len(ends) == runs
                    waiting = s > t0 + slack and not inside and (not starts or s > starts[-1]["t"]) and not done \
                        and (not ends or s > ends[-1]["t"] + slack) and len(starts) == len(ends)
                    if inside:
                        need(shown[0] == "running" and h.worker == "w0" and h.started_at and shown[3:] == (None,) * 3,
                             f"{where}: {shown} while running", "handle-running")
                        seen.hit("running")
                    elif waiting:
                        # a start may be under way; then it is running already, by then or soon
                        need(shown[0] in ("scheduled", "queued") and shown[1:] == (None,) * 5 or
                             shown[0] == "running" and h.worker == "w0" and shown[3:] == (None,) * 3, f"{where}: {shown} while waiting", "handle-waiting")
                        seen.hit("waiting")
                        if i:
                            seen.nontrivial = True
                    elif done and s > ends[-1]["t"] + slack:
                        if e < ends[-1]["t"] + case["ttl"] - 1:
                            want_outcome(h, where)
                            seen.hit("after")
                        elif s > ends[-1]["t"] + slack + case["ttl"] + 1:
                            need(shown == ("scheduled", None, None, None, None, None), f"{where}: {shown} once the record is gone", "handle-gone")
                            seen.hit("gone")

                jobs = [asyncio.ensure_future(read(*q)) for q in r["reads"]]
                ok = await lab.quiesce(lambda: len(lab.of("end", i=i)) == 1 + r["fails"] and lab.backlog() == (0, 0), limit=60)
                need(ok, f"run {i} never finished", "lost")
                end = lab.of("end", i=i)[-1]["t"]
                for h in handles:
                    if sim.now() + slack < end + case["ttl"] - 1:
                        await h.sync()
                        if sim.now() < end + case["ttl"] - 1:
                            want_outcome(h, f"run {i}, afterwards")
                await asyncio.gather(*jobs)
                await asyncio.sleep(r["gap"])
        need(not lab.worker_ends, f"a worker ended by itself: {lab.worker_ends}", "worker-died")
        await close_all(w)

    simulate(case, main)


PARTS = [Part("life", cases, run, quick=700, thorough=40_000, rule="a subscriber saw two or more live events"),
         Part("handles", lives, run_handles, quick=500, thorough=25_000, rule="a handle kept from an earlier life of the key was read while the next one waited")]
