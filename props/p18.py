"""P18: strikes stop exactly the calls they describe, until restored."""
from __future__ import annotations

import operator

from hypothesis import strategies as st

from docket import Perpetual, Retry
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *

TICK = 0.5

VALUES = [0, 1, 2, 10, -3, 1.5, "", "a", "b", "zz", "1", None, True, False, [1, 2], [0, 10], ["a", "b"]]
PARAMS = ["customer", "amount", "region", "a", "b", "c", "x", "tag"]
OPS = ["==", "!=", ">", ">=", "<", "<=", "between"]
FNS = ["charge", "anything", "keyworded", "positional", "bare"]


USED = {"charge": ["customer", "amount", "region"], "anything": ["customer", "x", "amount", "tag"],
        "keyworded": ["customer", "region", "amount", "x"], "positional": ["a", "b", "c"], "bare": []}


class Vague:
    """Compares like an array: to something that is neither true nor false."""

    def compare(self, other):
        return self

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = compare
    __hash__ = object.__hash__

    def __bool__(self):
        raise ValueError("ambiguous")


class Hostile:
    def compare(self, other):
        raise RuntimeError("not comparable")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = compare
    __hash__ = object.__hash__


ODD = [{"odd": "vague"}, {"odd": "hostile"}, {"odd": "nan"}]


def val(v):
    if isinstance(v, dict):
        return {"vague": Vague, "hostile": Hostile, "nan": lambda: float("nan")}[v["odd"]]()
    return tuple(v) if isinstance(v, list) else v


POOLS = [VALUES, [0, 1, 2, 10, -3], [1, 2, True], ["a", "b", "zz", ""], [1, "1", "a", 2], [None, 1.5, 1, [1, 2], "a"]]


@st.composite
def rules(draw, fns, params, value):
    fn = draw(st.one_of(st.none(), st.sampled_from(fns)))
    param = draw(st.sampled_from(params)) if fn is None else draw(st.sampled_from([None, *params, *params]))
    op = draw(st.sampled_from(["=="] * 2 + OPS)) if param else "=="
    v = draw(value)
    if op == "between":
        v = draw(st.sampled_from([[0, 2], [2, 0], [-3, 1.5], ["a", "b"], [1, "a"], [0], [0, 1, 2], 1]))
    return {"fn": fn, "param": param, "op": op, "v": v if param else None, "by": draw(st.booleans())}


@st.composite
def submissions(draw, fns, value):
    fn = draw(st.sampled_from(fns))
    v = lambda: draw(st.one_of(value, value, value, value, value, value, value, value, st.sampled_from(ODD)))
    args, kw = {
        "charge": lambda: draw(st.sampled_from([([v()], {}), ([v(), v()], {}), ([], {"customer": v()}),
                                                ([v()], {"amount": v()}), ([v(), v(), v()], {})])),
        "anything": lambda: draw(st.sampled_from([([v()], {}), ([], {"customer": v(), "x": v()}), ([v()], {"amount": v(), "tag": v()}), ([], {})])),
        "keyworded": lambda: draw(st.sampled_from([([v()], {}), ([v()], {"region": v()}), ([v()], {"x": v(), "tag": v()}),
                                                   ([], {"customer": v(), "region": v(), "amount": v()})])),
        "positional": lambda: draw(st.sampled_from([([v(), v()], {}), ([v(), v(), v()], {}), ([v()], {"b": v()}), ([v()], {"c": v(), "b": v()})])),
        "bare": lambda: ([], {}),
    }[fn]()
    return {"fn": fn, "args": args, "kw": kw, "delay": draw(st.sampled_from([0, 0, 1, 2, 4])),
            "how": draw(st.sampled_from(["add", "add", "name", "replace", "replace-name", "schedule"])),
            "fails": draw(st.sampled_from([0, 0, 0, 1])), "again": draw(st.integers(1, 3))}


@st.composite
def cases(draw, tier):
    n = draw(st.integers(4, 24 if tier == "thorough" else 16))
    fns = draw(st.sampled_from([FNS, ["charge"], ["charge", "anything"], ["keyworded", "charge"], ["positional"], ["anything", "bare"]]))
    params = draw(st.sampled_from([PARAMS, *[[q for q in PARAMS if any(q in USED[f] for f in fns)] or PARAMS] * 4]))
    value = st.sampled_from(draw(st.sampled_from(POOLS)))
    given: list = []
    ops = []
    for _ in range(n):
        kind = draw(st.sampled_from(["strike", "strike", "restore", "submit", "submit", "submit", "tangle"]))
        if kind == "tangle":
            # two strikes that touch the same task or parameter, of which one is restored
            a, b = draw(rules(fns, params, value)), draw(rules(fns, params, value))
            if draw(st.booleans()):
                b = {**a, "param": None, "op": "==", "v": None} if a["fn"] and draw(st.booleans()) else {**a, "v": b["v"] if b["param"] else a["v"]}
            a, b = draw(st.permutations([a, b]))
            given += [a, b]
            ops += [{**r, "op": op, "rule": r["op"], "who": draw(st.integers(0, 1))} for op, r in (("strike", a), ("strike", b), ("restore", draw(st.sampled_from([a, b]))))]
            ops.append({**draw(submissions([a["fn"] or b["fn"] or draw(st.sampled_from(fns))], value)), "op": "submit", "who": draw(st.integers(0, 1))})
            continue
        if kind == "strike":
            r = draw(rules(fns, params, value))
            given.append(r)
            ops.append({"op": "strike", **r} | {"rule": r["op"]})
        elif kind == "restore":
            r = draw(st.sampled_from(given)) if given and draw(st.integers(0, 3)) else draw(rules(fns, params, value))
            ops.append({"op": "restore", **r} | {"rule": r["op"]})
        else:
            ops.append({**draw(submissions(fns, value)), "op": "submit"})
        ops[-1]["op"] = kind
        ops[-1]["who"] = draw(st.integers(0, 1))
    return {"seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan"])), "ops": ops}


PY = {"==": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le}


def matches(rule, op_value, given):
    try:
        if rule == "between":
            lo, hi = op_value
            return bool(lo <= given <= hi)
        return bool(PY[rule](given, op_value))
    except Exception:
        return False


def arguments(fn, args, kw):
    """name -> value as a plain call would bind them (independent of inspect)."""
    names, defaults = {"charge": (["customer", "amount", "region"], {"amount": 10, "region": "eu"}), "anything": ([], {}),
                       "keyworded": (["customer"], {"region": "eu"}), "positional": (["a", "b", "c"], {"c": 3}),
                       "bare": ([], {})}[fn]
    return {**defaults, **dict(zip(names, args)), **kw}


class Model:
    def __init__(self):
        self.rules: list = []

    def apply(self, o):
        r = (o["fn"], o["param"], o["rule"] if o["param"] else None, val(o["v"]) if o["param"] else None)
        if o["op"] == "strike":
            if r not in self.rules:
                self.rules.append(r)
        elif r in self.rules:
            self.rules.remove(r)

    def stricken(self, fn, args, kw):
        bound = arguments(fn, [val(a) for a in args], {k: val(v) for k, v in kw.items()})
        for rfn, param, rule, v in self.rules:
            if rfn is not None and rfn != fn:
                continue
            if param is None or param in bound and matches(rule, v, bound[param]):
                return True
        return False


def run(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)
        ops = case["ops"]
        index: dict[str, int] = {}

        def make(fn):
            policy = Retry(attempts=2)

            async def body(key, retry):
                i = index[key]
                lab.rec("start", i=i, attempt=retry.attempt)
                if retry.attempt <= ops[i]["fails"]:
                    retry.after(S(ops[i]["again"] * TICK))
            return body, policy

        from docket import TaskKey
        body, policy = make(None)

        async def charge(customer, amount=10, region="eu", key: str = TaskKey(), retry: Retry = policy):
            await body(key, retry)

        async def anything(*args, key: str = TaskKey(), retry: Retry = policy, **kwargs):
            await body(key, retry)

        async def keyworded(customer, *, region="eu", key: str = TaskKey(), retry: Retry = policy, **extra):
            await body(key, retry)

        async def positional(a, /, b, c=3, key: str = TaskKey(), retry: Retry = policy):
            await body(key, retry)

        async def bare(key: str = TaskKey(), retry: Retry = policy):
            await body(key, retry)

        lab.tasks = [charge, anything, keyworded, positional, bare]
        fns = {f.__name__: f for f in lab.tasks}
        w = lab.start_worker("w", scheduling_resolution=S(0.05), minimum_check_interval=S(0.05))
        model = Model()
        # for each task and attempt: (due, stricken?) decided by the rules in force then
        pending: list[tuple[float, int, int]] = []
        expected: dict[int, list[int]] = {}
        final: dict[int, str] = {}
        async with lab.docket() as d0, lab.docket() as d1:
            dockets = [d0, d1]
            await asyncio.sleep(2)
            base = sim.now()

            def settle(t):
                """Play the attempts due before t against the rules in force."""
                pending.sort()
                while pending and pending[0][0] < t:
                    due, i, attempt = pending.pop(0)
                    o = ops[i]
                    if model.stricken(o["fn"], o["args"], o["kw"]):
                        final[i] = "cancelled"
                        seen.hit("struck-at-worker")
                        if attempt > 1:
                            seen.hit("struck-at-retry")
                        continue
                    expected.setdefault(i, []).append(attempt)
                    if attempt <= o["fails"]:
                        pending.append((due + 0.01 + o["again"] * TICK, i, attempt + 1))
                        pending.sort()
                    else:
                        final[i] = "completed"

            for i, o in enumerate(ops):
                t = i * TICK
                settle(t - 0.01)
                await lab.until(base + t)
                d = dockets[o["who"]]
                if o["op"] != "submit":
                    target = o["fn"] if o["by"] or o["fn"] is None else fns[o["fn"]]
                    what = d.strike if o["op"] == "strike" else d.restore
                    await what(target, *([o["param"], o["rule"], val(o["v"])] if o["param"] else []))
                    model.apply(o)
                    seen.hit(o["op"])
                    continue
                key = K(case, i)
                index[key] = i
                args, kw = [val(a) for a in o["args"]], {k: val(v) for k, v in o["kw"].items()}
                # never due at a moment the rules change
                when = lab.when(base + t + o["delay"] * TICK + 0.2) if o["delay"] else None
                how, fn = o["how"], fns[o["fn"]]
                if how == "add" or how == "name":
                    ex = await d.add(fn if how == "add" else o["fn"], when=when, key=key)(*args, **kw)
                elif how.startswith("replace"):
                    ex = await d.replace(fn if how == "replace" else o["fn"], when or utcnow(), key)(*args, **kw)
                else:
                    from docket import Execution
                    ex = Execution(d, fn, tuple(args), kw, key, when or utcnow(), 1)
                    await d.schedule(ex)
                struck = model.stricken(o["fn"], o["args"], o["kw"])
                need((ex.disposition.value == "struck") == struck, f"op {i}: {o['fn']}(*{args}, **{kw}) under rules "
                     f"{model.rules}: {ex.disposition.value}", "decision")
                if struck:
                    seen.nontrivial = True
                    seen.hit("struck")
                    need(await d.get_execution(key) is None, f"op {i}: a struck call left a record", "trace")
                else:
                    seen.hit("accepted")
                    pending.append((t + (o["delay"] * TICK + 0.2 if o["delay"] else 0.001), i, 1))
            settle(1e9)
            await lab.quiesce(lambda: lab.backlog() == (0, 0), limit=30)
            await asyncio.sleep(0.5)
            for i, o in enumerate(ops):
                if o["op"] != "submit":
                    continue
                got = [e["attempt"] for e in lab.of("start", i=i)]
                need(got == expected.get(i, []), f"op {i}: {o['fn']}(*{o['args']}, **{o['kw']}): attempts {got} ran, not "
                     f"{expected.get(i, [])}", "runs")
                if i in final:
                    need(lab.stored_state(K(case, i)) == final[i], f"op {i}: recorded {lab.stored_state(K(case, i))}, not {final[i]}", "state")
            for _ in range(3):
                for d in dockets:
                    args = {p: val(v) for p, v in zip(PARAMS, [*VALUES, *ODD][case["seed"] % 12 + _:])}
                    got = d.strike_list.is_stricken(args)
                    want = any(fn is None and p in args and matches(r, v, args[p]) for fn, p, r, v in model.rules)
                    need(got == want, f"is_stricken({args}) under {model.rules}: {got}", "mapping")
        await close_all(w)

    simulate(case, main)


# -- striking a task that keeps itself going -----------------------------------


@st.composite
def chain_cases(draw, tier):
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["zero", "lan", "wan"])), "every": draw(st.sampled_from([0.5, 2, 7])),
        "dur": draw(st.sampled_from([0, 0.3, 3])), "workers": draw(st.integers(1, 2)), "automatic": draw(st.booleans()),
        "strike": draw(times(6, 0.05)), "restore": draw(st.sampled_from([None, 20, 70])),
        "restart": draw(st.sampled_from([None, None, 12, 30])), "double": draw(st.booleans()),
    }


def run_chain(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)

        async def beat(customer: str = "c", perpetual: Perpetual = Perpetual(every=S(case["every"]), automatic=case["automatic"])):
            lab.rec("start")
            await asyncio.sleep(case["dur"])

        lab.tasks = [beat]
        ws = [lab.start_worker(f"w{i}", restart_after=1) for i in range(case["workers"])]
        async with lab.docket() as d:
            if not case["automatic"]:
                await d.add(beat, key="beat")()
            await lab.until(4 + slack + case["strike"])
            await d.strike("beat")
            if case["double"]:
                await d.strike("beat", "customer", "==", "other")
            struck = sim.now() + 2 * slack + 0.1
            await lab.until(struck)
            restored = sim.now() + (case["restore"] or 100)
            if case["restart"] and case["restart"] < (case["restore"] or 100) - 3:
                await lab.until(struck + case["restart"])
                for w in ws:
                    w.node.kill()
                seen.hit("restarted")
            await lab.until(restored)
            before = [e["t"] for e in lab.of("start") if e["t"] < struck]
            during = [e["t"] for e in lab.of("start") if e["t"] >= struck]
            need(before, "it never ran", "never")
            need(not during, f"struck at {struck:.2f}, ran at {during}", "ran")
            seen.nontrivial = True
            if case["restore"] and case["automatic"]:
                await d.restore("beat")
                await asyncio.sleep(60 + 2 * slack + 5)
                after = [e["t"] for e in lab.of("start") if e["t"] >= restored]
                need(after, "it did not come back once restored", "gone")
                seen.hit("came-back")
        await close_all(*ws)

    simulate(case, main)


PARTS = [
    Part("rules", cases, run, quick=700, thorough=40_000, rule="a submission was struck"),
    Part("chains", chain_cases, run_chain, quick=100, thorough=4_000, rule="struck while going round"),
]
