"""P30: an argument shows in logs and traces if its parameter is declared Logged, and only then."""
import inspect
import logging
import os
from typing import Annotated

from hypothesis import strategies as st
from opentelemetry import trace
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter

from docket import Depends, Logged, Perpetual, Retry, Timeout
from vlib.engine import Part, Seen
from vlib.gens import seeds
from vlib.lab import *

os.environ["OTEL_SDK_DISABLED"] = "false"  # elsewhere it is disabled, for speed
SPANS = InMemorySpanExporter()
PROVIDER = TracerProvider()
PROVIDER.add_span_processor(SimpleSpanProcessor(SPANS))
trace.set_tracer_provider(PROVIDER)

PO, PK, VA, KO, VK = (inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.VAR_POSITIONAL,
                      inspect.Parameter.KEYWORD_ONLY, inspect.Parameter.VAR_KEYWORD)
ANNOTATIONS = {"plain": str, "none": inspect.Parameter.empty, "other": Annotated[str, "a note", 5],
               "logged": Annotated[object, Logged], "logged()": Annotated[object, "a note", Logged()], "length": Annotated[object, Logged(length_only=True)]}
SHAPES = ["str", "list", "dict", "set", "tuple", "bytes", "nested"]
ENDINGS = ["ok", "ok", "fails", "retried", "perpetual", "late", "cancelled", "replaced", "struck", "uncomparable", "unregistered", "dep", "extra", "unknown"]


@st.composite
def cases(draw, tier):
    parameter = st.fixed_dictionaries({
        "ann": st.sampled_from(sorted(ANNOTATIONS) + ["plain", "logged"]), "shape": st.sampled_from(SHAPES + ["str", "str"]),
        "given": st.sampled_from([True, True, True, False])})
    task = st.fixed_dictionaries({
        "po": st.lists(parameter, max_size=1), "pk": st.lists(parameter, max_size=3), "va": st.integers(0, 3), "has_va": st.booleans(),
        "ko": st.lists(parameter, max_size=2), "vk": st.integers(0, 1), "by_name": st.integers(0, 3), "ending": st.sampled_from(ENDINGS)})
    return {"seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan"])), "tasks": draw(st.lists(task, min_size=1, max_size=4))}


def value(shape: str, marker: str):
    return {"str": marker, "list": [marker, 1], "dict": {marker: marker}, "set": {marker}, "tuple": (marker, 2, 3), "bytes": marker.encode(),
            "nested": [{"k": (marker,)}]}[shape]


def shown(ann: str, v) -> str:
    if ann == "length":
        n = len(v)
        return f"{{len {n}}}" if isinstance(v, (dict, set)) else f"(len {n})" if isinstance(v, tuple) else f"[len {n}]"
    return repr(v) if ann.startswith("logged") else "..."


class Catch(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.seen: list[tuple[str, str, str]] = []
        self.setFormatter(logging.Formatter("%(message)s"))

    def emit(self, record):
        extra = {k: v for k, v in record.__dict__.items() if k not in ("msg", "args", "exc_info")}
        self.seen.append((record.name, record.getMessage(), self.format(record) + repr(extra)))


def run(case, seen: Seen) -> None:
    root, level, catch = logging.getLogger(), logging.getLogger().level, Catch()
    SPANS.clear()

    async def main(sim):
        logging.disable(logging.NOTSET)
        lab = Lab(sim)
        secrets: dict[str, str] = {}  # marker -> where
        calls: list[dict] = []

        def refuse():
            raise ValueError("no such thing")

        for i, t in enumerate(case["tasks"]):
            ps, args, kw, exact = [], [], {}, []
            n = [0]

            def fresh(where, secret, shape="str"):
                n[0] += 1
                marker = f"{'secret' if secret else 'shown'}{i}x{n[0]}"
                if secret:
                    secrets[marker] = where
                return value(shape, marker)

            positional = [(PO, p) for p in t["po"]] + [(PK, p) for p in t["pk"]]
            fixed = len(positional)
            # those beyond by_name are passed by keyword, unless more positional arguments follow them
            many = t["has_va"] and t["va"]
            still = True
            for k, (kind, p) in enumerate(positional):
                name = f"p{k}"
                ps.append(inspect.Parameter(name, kind, annotation=ANNOTATIONS[p["ann"]], default=None))
                v = fresh(f"task {i}, {name} ({p['ann']})", not p["ann"].startswith("logged"), p["shape"])
                if many or still and (kind is PO or k < t["by_name"]) and p["given"]:
                    args.append(v)
                    exact.append(shown(p["ann"], v))
                else:
                    still = False
                    if kind is PK and p["given"]:
                        kw[name] = v
                        exact.append(f"{name}={shown(p['ann'], v)}")
            if t["has_va"]:
                ps.append(inspect.Parameter("rest", VA))
                for k in range(t["va"]):
                    args.append(fresh(f"task {i}, *rest", True))
            for k, p in enumerate(t["ko"]):
                name = f"k{k}"
                ps.append(inspect.Parameter(name, KO, annotation=ANNOTATIONS[p["ann"]], default=None))
                if p["given"]:
                    kw[name] = v = fresh(f"task {i}, {name} ({p['ann']})", not p["ann"].startswith("logged"), p["shape"])
                    exact.append(f"{name}={shown(p['ann'], v)}")
            end = t["ending"]
            policy = {"retried": Retry(attempts=2), "perpetual": Perpetual(every=S(1)), "late": Timeout(S(0.3)), "dep": Depends(refuse)}.get(end)
            if policy:
                ps.append(inspect.Parameter("policy", KO, default=policy))
            if t["vk"]:
                ps.append(inspect.Parameter("more", VK))
                kw["something"] = fresh(f"task {i}, **more", True)
                exact.append("something=...")
            elif end == "unknown":
                kw["something"] = fresh(f"task {i}, unknown", True)
                exact.append("something=...")
            if end == "extra" and not t["has_va"] and len(args) == fixed:
                args.append(fresh(f"task {i}, extra", True))

            def make(i=i, end=end):
                runs = [0]

                async def f(*args, **kw):
                    runs[0] += 1
                    lab.rec("run", i=i)
                    if end in ("fails", "retried"):
                        raise ValueError("scripted")
                    if end in ("late", "cancelled"):
                        await asyncio.sleep(2)
                    if end == "perpetual" and runs[0] == 2:
                        kw["policy"].cancel()
                f.__signature__ = inspect.Signature(ps)
                f.__name__ = f"f{i}"
                return f
            calls.append({"fn": make(), "args": args, "kw": kw, "exact": exact, "end": end, "name": f"f{i}", "ps": ps, "key": K(case, i)})
        lab.tasks = [c["fn"] for c in calls if c["end"] != "unregistered"]
        w = lab.start_worker("w", restart_after=None, minimum_check_interval=S(0.05), scheduling_resolution=S(0.05))
        async with lab.docket([c["fn"] for c in calls]) as d:
            await asyncio.sleep(1.5)
            for c in calls:
                if c["end"] == "uncomparable" and c["kw"]:
                    # such a rule applies to any task with a parameter of this name
                    await d.strike(c["name"], sorted(c["kw"])[0], ">", 5)
            for c in calls:
                late = c["end"] in ("struck", "replaced")
                await d.add(c["fn"], lab.when(sim.now() + 1) if late else None, key=c["key"])(*c["args"], **c["kw"])
            await asyncio.sleep(0.5)
            for c in calls:
                if c["end"] == "cancelled":
                    await d.cancel(c["key"])
                if c["end"] == "replaced":
                    await d.replace(c["fn"], utcnow(), key=c["key"])(*c["args"], **c["kw"])
                if c["end"] == "struck":
                    await d.strike(c["name"])
            await lab.quiesce(lambda: lab.backlog() == (0, 0) or lab.worker_ends, limit=30)
            await asyncio.sleep(1)
            snapshot = await d.snapshot()
            need(snapshot is not None, "", "")
        need(not lab.worker_ends, f"the worker ended by itself: {lab.worker_ends}", "worker-died")
        await close_all(w)
        # what is not declared Logged shows nowhere
        text = "\n".join(full for _, _, full in catch.seen)
        spans = "\n".join(f"{s.name} {dict(s.attributes)} {s.status.description} {[(e.name, dict(e.attributes or {})) for e in s.events]}"
                          for s in SPANS.get_finished_spans())
        for marker, where in secrets.items():
            for place, what in (("logs", text), ("traces", spans)):
                if marker + "'" in what or marker in what.replace(marker + "0", ""):
                    line = next(x for x in what.split("\n") if marker in x)
                    need(False, f"the value of {where} shows in the {place}: {line[:300]}", place)
        # what is declared shows, with the call that it belongs to
        for i, c in enumerate(calls):
            runs = len(lab.of("run", i=i))
            seen.hit(c["end"])
            ours = [m for name, m, _ in catch.seen if name == "docket.worker" and ("↪" in m or "↬ [" in m) and f"{c['name']}(" in m and c["key"] in m]
            if c["end"] == "unregistered":
                need(not any("shown" in x for x in ours), f"task {i}, unknown to the worker: {ours}", "unregistered")
                continue
            if c["end"] in ("struck",):
                continue
            need(len(ours) >= max(runs, 1), f"task {i} ({c['end']}) ran {runs} times, its starts were logged {len(ours)} times", "unlogged")
            plain = not any(p.kind is VA for p in c["ps"]) and c["end"] != "extra"
            for m in ours:
                call = m[m.index(c["name"] + "("):]
                if plain:
                    want = f"{c['name']}({', '.join(c['exact'])}){{{c['key']}}}"
                    need(call.startswith(want), f"task {i}: logged as {call}, not {want}", "call")
                else:
                    for x in c["exact"]:
                        need(x == "..." or x in call, f"task {i}: {x} is missing from {call}", "call")
        seen.nontrivial = bool(secrets) and any("shown" in x for c in calls for x in c["exact"])
        seen.hit("secrets", len(secrets))

    root.addHandler(catch)
    root.setLevel(logging.DEBUG)
    try:
        simulate(case, main)
    finally:
        logging.disable(logging.CRITICAL)
        root.removeHandler(catch)
        root.setLevel(level)


PARTS = [Part("calls", cases, run, quick=1000, thorough=30_000, rule="some arguments were to be shown and some not")]
