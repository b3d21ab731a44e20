"""P31: metrics and traces tell what happened."""
import os
from collections import Counter
from typing import Annotated

from hypothesis import strategies as st
from opentelemetry import metrics, trace
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.trace import SpanKind, StatusCode

from docket import ConcurrencyLimit, Perpetual, Retry
from docket.execution import Disposition
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *

os.environ["OTEL_SDK_DISABLED"] = "false"  # elsewhere it is disabled, for speed
READER = InMemoryMetricReader()
metrics.set_meter_provider(MeterProvider(metric_readers=[READER]))
SPANS = InMemorySpanExporter()
PROVIDER = TracerProvider()
PROVIDER.add_span_processor(SimpleSpanProcessor(SPANS))
trace.set_tracer_provider(PROVIDER)
TRACER = trace.get_tracer("mine")
FUNCTIONS = ["plain", "plain", "fails", "retried", "ticking", "limited", "banned"]


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan"])), "workers": draw(st.integers(1, 2)), "concurrency": draw(st.sampled_from([1, 3, 10])),
        "ops": draw(st.lists(st.fixed_dictionaries({
            "at": times(8, 0.1), "key": st.integers(0, 3), "fn": st.sampled_from(FUNCTIONS), "op": st.sampled_from(["add"] * 5 + ["replace", "replace", "cancel"]),
            "delay": st.sampled_from([0, 0, 0.5, 2]), "dur": st.sampled_from([0, 0.3, 1, 3])}), min_size=1, max_size=14)),
        "looks": draw(st.lists(times(12, 0.05), max_size=5)), "later": draw(st.integers(0, 3)), "jam": draw(st.sampled_from([0, 0, 1, 4])), "ban": draw(st.sampled_from([2, 5, 50])),
    }


def read() -> tuple[dict, dict]:
    """Sums and (count, sum) of histograms, by (metric, task, worker)."""
    sums, hists = Counter(), {}
    data = READER.get_metrics_data()
    for rm in data.resource_metrics if data else []:
        for sm in rm.scope_metrics:
            for m in sm.metrics:
                for p in m.data.data_points:
                    k = (m.name, p.attributes.get("docket.task", ""), p.attributes.get("docket.worker", ""), p.attributes.get("docket.name", ""))
                    if hasattr(p, "bucket_counts"):
                        hists[k] = (p.count, p.sum)
                    else:
                        sums[k] += p.value
    return sums, hists


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]
    before, hbefore = read()
    SPANS.clear()

    async def main(sim):
        lab = Lab(sim)
        turns = Counter()
        count = Counter()  # what is to be counted: (metric, task)
        due: dict = {}

        async def body(name, n, dur, worker=None):
            from docket.dependencies import current_execution, current_worker
            ex = current_execution.get()
            me = {"name": name, "n": n, "key": ex.key, "attempt": ex.attempt, "w": current_worker.get().name, "due": ex.when.timestamp()}
            with TRACER.start_as_current_span("inner") as span:
                me["parent"] = span.parent.span_id if span.parent else None
                lab.rec("begin", **me)
                end = "interrupted"
                try:
                    await asyncio.sleep(dur)
                    end = "failed" if name in ("fails", "retried") and (name == "fails" or ex.attempt < 3) else "ok"
                finally:
                    lab.rec("end", how=end, **me)
            if end == "failed":
                raise ValueError("scripted")
            return n

        async def plain(n: int, dur: float): return await body("plain", n, dur)
        async def fails(n: int, dur: float): return await body("fails", n, dur)
        async def retried(n: int, dur: float, retry: Retry = Retry(attempts=3, delay=S(0.2))): return await body("retried", n, dur)

        async def ticking(n: int, dur: float, p: Perpetual = Perpetual(every=S(0.7))):
            turns[n] += 1
            if turns[n] >= 3:
                p.cancel()
            return await body("ticking", n, dur)
        async def limited(n: int, dur: float, lane: Annotated[int, ConcurrencyLimit(1)] = 0): return await body("limited", n, dur)
        async def banned(n: int, dur: float): return await body("banned", n, dur)
        fns = {f.__name__: f for f in (plain, fails, retried, ticking, limited, banned)}
        lab.tasks = list(fns.values())
        ws = [lab.start_worker(f"w{k}", restart_after=None, concurrency=case["concurrency"], minimum_check_interval=S(0.05), scheduling_resolution=S(0.05))
              for k in range(case["workers"])]
        async with lab.docket() as d:
            await asyncio.sleep(1.5)
            async def ban():
                await lab.until(2 + case["ban"])
                await d.strike("banned")

            async def op(n, o):
                await lab.until(2 + o["at"])
                if o["op"] == "cancel":
                    with TRACER.start_as_current_span(f"op{n}"):
                        await d.cancel(K(case, o["key"]))
                    count["docket_tasks_cancelled", ""] += 1
                    return
                with TRACER.start_as_current_span(f"op{n}"):
                    e = await getattr(d, o["op"])(fns[o["fn"]], lab.when(sim.now() + o["delay"]), key=K(case, o["key"]))(n, o["dur"])
                if e.disposition is Disposition.STRUCK:
                    count["docket_tasks_stricken", o["fn"]] += 1
                    return
                if o["op"] == "add":
                    count["docket_tasks_added", o["fn"]] += 1
                    count["docket_tasks_scheduled", o["fn"]] += e.disposition is Disposition.SCHEDULED
                else:
                    for m in ("replaced", "cancelled", "scheduled"):
                        count[f"docket_tasks_{m}", o["fn"]] += 1

            async def look(at):
                await lab.until(2 + at)
                now = sim.now()
                sums, _ = read()
                gauge = sum(v - before[k] for k, v in sums.items() if k[0] == "docket_tasks_running")
                await asyncio.sleep(2 * slack + 0.02)
                begun = [e["t"] for e in lab.of("begin")]
                ended = [e["t"] for e in lab.of("end")]
                low = sum(t < now - 1e-6 for t in begun) - sum(t <= now + 1e-6 for t in ended)
                high = sum(t <= now + 2 * slack + 0.01 for t in begun) - sum(t < now - 2 * slack - 0.01 for t in ended)
                if not any(o["fn"] == "limited" for o in case["ops"]):
                    need(low <= gauge <= high, f"at t={now:.3f}, the number of running tasks is said to be {gauge}, it was between {low} and {high}", "running")
                    seen.hit("look")
            await asyncio.gather(ban(), *(op(n, o) for n, o in enumerate(case["ops"])), *(look(a) for a in case["looks"])) if case["ban"] < 50 else \
                await asyncio.gather(*(op(n, o) for n, o in enumerate(case["ops"])), *(look(a) for a in case["looks"]))
            await lab.quiesce(lambda: lab.backlog() == (0, 0), limit=120)
            for k in range(case["later"]):
                await d.add(plain, lab.when(sim.now() + 500), key=f"later{k}")(99, 0)
                count["docket_tasks_added", "plain"] += 1
                count["docket_tasks_scheduled", "plain"] += 1
            await asyncio.sleep(1)
            begins, ends = lab.of("begin"), lab.of("end")
            sums, hists = read()

            def got(metric, task=None, worker=None):
                return sum(v - before[k] for k, v in sums.items() if k[0] == metric and (task is None or k[1] == task) and (worker is None or k[2] == worker))

            def hist(metric, task, worker):
                k = (metric, task, worker, "d")
                (a, b), (c, e) = hists.get(k, (0, 0)), hbefore.get(k, (0, 0))
                return a - c, b - e
            need(got("docket_tasks_running") == 0, f"nothing runs, yet {got('docket_tasks_running')} are said to", "running-end")
            for f in fns:
                for w in [f"w{k}" for k in range(case["workers"])]:
                    ran = [e for e in begins if e["name"] == f and e["w"] == w]
                    how = Counter(e["how"] for e in ends if e["name"] == f and e["w"] == w)
                    who = f"{f} on {w}"
                    started = got("docket_tasks_started", f, w)
                    need(started == len(ran) or f == "limited" and started >= len(ran), f"{who}: {started} starts counted, {len(ran)} happened", "started")
                    need(got("docket_tasks_completed", f, w) == started, f"{who}: {started} started, {got('docket_tasks_completed', f, w)} completed", "completed")
                    need(got("docket_tasks_succeeded", f, w) == how["ok"], f"{who}: {got('docket_tasks_succeeded', f, w)} successes counted, {how}", "succeeded")
                    need(got("docket_tasks_failed", f, w) == how["failed"], f"{who}: {got('docket_tasks_failed', f, w)} failures counted, {how}", "failed")
                    n, total = hist("docket_task_duration", f, w)
                    true = sum(e["t"] for e in ends if (e["name"], e["w"]) == (f, w)) - sum(e["t"] for e in ran)
                    need(n == started, f"{who}: {n} durations for {started} starts", "durations")
                    need(f == "limited" or true - 1e-3 <= total <= true + (slack + 0.01) * max(n, 1), f"{who}: durations sum to {total:.3f}, tasks ran for {true:.3f}", "duration")
                    n, total = hist("docket_task_punctuality", f, w)
                    lag = sum(sim.epoch_ns / 1e9 + e["t"] - e["due"] for e in ran)
                    need(n == started, f"{who}: {n} punctualities for {started} starts", "punctualities")
                    need(f == "limited" or abs(total - lag) <= (slack + 0.01) * max(n, 1), f"{who}: punctualities sum to {total:.3f}, tasks were {lag:.3f} late", "punctuality")
                failures = sum(e["how"] == "failed" for e in ends if e["name"] == "retried") if f == "retried" else 0
                again = sum(max(0, n - 1) for n in turns.values()) if f == "ticking" else 0
                for m, most in (("retried", failures), ("perpetuated", again)):
                    n = got(f"docket_tasks_{m}", f)
                    # when nothing interfered
                    need(n == most if all(o["op"] == "add" for o in case["ops"]) else n >= 0 and (n <= most or m == "perpetuated"), f"{f}: {n} {m}, not {most}", m)
                need(got("docket_tasks_redelivered", f) == 0, f"{f}: {got('docket_tasks_redelivered', f)} redeliveries counted", "redelivered")
                for m in ("added", "replaced", "scheduled"):
                    n = got(f"docket_tasks_{m}", f)
                    need(n == count[f"docket_tasks_{m}", f] or f == "ticking" and n >= count[f"docket_tasks_{m}", f], f"{f}: {n} {m}, not {count[f'docket_tasks_{m}', f]}", m)
                n = got("docket_tasks_stricken", f, "")
                need(n == count["docket_tasks_stricken", f], f"{f}: {n} stricken, not {count['docket_tasks_stricken', f]}", "stricken")
            extra = got("docket_tasks_cancelled", "") - count["docket_tasks_cancelled", ""]
            # a task waiting for its turn has a safeguard, which is cancelled with a cancellation of its own
            need(extra == 0 or extra > 0 and any(o["fn"] == "limited" for o in case["ops"]), f"{got('docket_tasks_cancelled', '')} cancellations counted", "cancelled")
            if case["later"]:
                await asyncio.sleep(2.5)
                sums, _ = read()
                depth = [v for k, v in sums.items() if k[0] == "docket_schedule_depth" and k[3] == "d"]
                queued = [v for k, v in sums.items() if k[0] == "docket_queue_depth" and k[3] == "d"]
                # a waiter that was replaced may leave its safeguard to run in its time
                extra = sum(k.startswith(b"__safeguard__") for k in sim.server.q("zrange", "d:queue", 0, -1))
                need(depth == [case["later"] + extra] and queued == [0], f"{case['later'] + extra} tasks wait; the gauges say {depth} and {queued} due", "depth")
                seen.hit("depth")
            if case["jam"]:  # more is due than there are slots for
                slots = case["workers"] * case["concurrency"]
                for k in range(slots + case["jam"]):
                    await d.add(plain, key=f"jam{k}")(98, 5)
                await asyncio.sleep(3)
                sums, _ = read()
                queued = [v for k, v in sums.items() if k[0] == "docket_queue_depth" and k[3] == "d"]
                need(len(queued) == 1 and case["jam"] <= queued[0] <= case["jam"] + slots, f"{case['jam']} due tasks wait for a slot and {slots} run; the gauge says {queued} are due", "queue-depth")
                seen.hit("jam")
                await lab.quiesce(lambda: lab.backlog()[0] == 0, limit=60)
        await close_all(*ws)
        # spans
        finished = SPANS.get_finished_spans()
        by_id = {s.context.span_id: s for s in finished}
        runs = {s.context.span_id: s for s in finished if s.kind is SpanKind.CONSUMER}
        how = {e["parent"]: e for e in ends}
        need(len(how) == len(ends), "two runs shared a span", "span")
        for e in begins:
            who = f"{e['name']} {e['key']!r}, attempt {e['attempt']}, at t={e['t']:.3f}"
            s = runs.get(e["parent"])
            need(s is not None, f"{who}: did not run inside a consumer span", "span")
            a = dict(s.attributes)
            need(s.name == e["name"] and a["docket.key"] == e["key"] and a["docket.attempt"] == e["attempt"] and a["docket.worker"] == e["w"] and a["docket.name"] == "d",
                 f"{who}: its span is {s.name} {a}", "attributes")
            want = StatusCode.ERROR if how[e["parent"]]["how"] == "failed" else StatusCode.OK
            need(s.status.status_code is want, f"{who}: span status {s.status.status_code}, not {want}", "status")
            # the links lead to whoever asked for it
            at, steps = s, 0
            while at is not None and at.kind is SpanKind.CONSUMER and steps < 50:
                need(len(at.links) == 1, f"{who}: {len(at.links)} links", "link")
                nxt = by_id.get(at.links[0].context.span_id)
                need(nxt is not None, f"{who}: its link leads nowhere", "link")
                need(dict(nxt.attributes).get("docket.key") == e["key"], f"{who}: its link leads to {nxt.name} {dict(nxt.attributes)}", "link")
                at, steps = nxt, steps + 1
            need(at.name in ("docket.add", "docket.replace", "docket.schedule"), f"{who}: leads back to {at.name}", "link")
            up = by_id.get(at.parent.span_id) if at.parent else None
            need(up is not None and (up.name == f"op{e['n']}" or up.kind is SpanKind.CONSUMER and e["name"] == "ticking"),
                 f"{who}: asked for by {up and up.name}, not op{e['n']}", "origin")
            seen.hit("run")
        seen.nontrivial = len(begins) > 1

    simulate(case, main)


PARTS = [Part("telemetry", cases, run, quick=400, thorough=20_000, rule="tasks ran more than once")]
