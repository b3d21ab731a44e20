"""P06: a task body receives exactly the arguments it was submitted with, on every path to it."""
from __future__ import annotations

import copy
import dataclasses
import enum
import functools
import math
import types
import uuid
from datetime import date, datetime, timedelta, timezone
from decimal import Decimal
from fractions import Fraction
from pathlib import PurePosixPath

from hypothesis import strategies as st

from typing import (Annotated, Any, Callable, Dict, List, Literal, Optional, Tuple, Type, TypeVar, Union)

from docket import (CurrentDocket, CurrentExecution, Depends, Logged, Perpetual, Retry, TaskKey, TaskLogger, Timeout, Worker)
from vlib.engine import Part, Seen
from vlib.gens import seeds
from vlib.lab import *


class Color(enum.Enum):
    RED = "red"
    BLUE = 2


@dataclasses.dataclass(frozen=True)
class Point:
    x: object
    y: object = None


# values travel as JSON specs so that cases can be stored and replayed
def build(spec):
    t, v = spec
    if t in ("int", "str", "bool", "none"):
        return int(v) if t == "int" else v
    if t == "float":
        return float(v)
    if t == "bytes":
        return bytes(v)
    if t == "surrogate":
        return v.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")
    if t == "datetime":
        return datetime.fromtimestamp(v[0] / 1000, timezone(timedelta(minutes=v[1])))
    if t == "naive":
        return datetime(2025, 1, 1) + timedelta(milliseconds=v)
    if t == "date":
        return date.fromordinal(v)
    if t == "timedelta":
        return timedelta(microseconds=v)
    if t == "decimal":
        return Decimal(v)
    if t == "fraction":
        return Fraction(v[0], v[1])
    if t == "uuid":
        return uuid.UUID(int=v)
    if t == "path":
        return PurePosixPath(v)
    if t == "enum":
        return Color[v]
    if t == "complex":
        return complex(v[0], v[1])
    if t == "list":
        return [build(x) for x in v]
    if t == "tuple":
        return tuple(build(x) for x in v)
    if t == "dict":
        return {k: build(x) for k, x in v}
    if t == "set":
        return set(v)
    if t == "frozenset":
        return frozenset(v)
    if t == "point":
        return Point(build(v[0]), build(v[1]))
    if t == "bytearray":
        return bytearray(v)
    raise AssertionError(t)


def same(a, b) -> bool:
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, Point):
        return same(a.x, b.x) and same(a.y, b.y)
    if isinstance(a, datetime):
        return a == b and a.tzinfo == b.tzinfo
    return a == b


text = st.one_of(st.text(max_size=12), st.sampled_from(["", "\0", "\r\n", "a:b", "{x}", "'\"\\", "é😀", "$", "nil"]))
leaf = st.one_of(
    st.tuples(st.just("int"), st.one_of(st.integers(-10, 10), st.integers(-2**80, 2**80)).map(str)),
    st.tuples(st.just("str"), text), st.tuples(st.just("bool"), st.booleans()), st.just(("none", None)),
    st.tuples(st.just("float"), st.floats(allow_nan=True).map(repr)),
    st.tuples(st.just("bytes"), st.lists(st.integers(0, 255), max_size=10)),
    st.tuples(st.just("bytearray"), st.lists(st.integers(0, 255), max_size=4)),
    st.tuples(st.just("datetime"), st.tuples(st.integers(0, 4 * 10**12), st.integers(-840, 840))),
    st.tuples(st.just("naive"), st.integers(0, 10**11)),
    st.tuples(st.just("date"), st.integers(1, 3_000_000)),
    st.tuples(st.just("timedelta"), st.integers(-10**12, 10**12)),
    st.tuples(st.just("decimal"), st.decimals(allow_nan=False).map(str)),
    st.tuples(st.just("fraction"), st.tuples(st.integers(-99, 99), st.integers(1, 99))),
    st.tuples(st.just("uuid"), st.integers(0, 2**128 - 1)),
    st.tuples(st.just("path"), st.sampled_from(["/a/b", "x", "."])),
    st.tuples(st.just("enum"), st.sampled_from(["RED", "BLUE"])),
    st.tuples(st.just("complex"), st.tuples(st.integers(-3, 3), st.integers(-3, 3))),
    st.tuples(st.just("set"), st.lists(st.integers(0, 9), max_size=4)),
    st.tuples(st.just("frozenset"), st.lists(st.text(max_size=3), max_size=3)),
)
value = st.recursive(leaf, lambda inner: st.one_of(
    st.tuples(st.just("list"), st.lists(inner, max_size=3)),
    st.tuples(st.just("tuple"), st.lists(inner, max_size=3)),
    st.tuples(st.just("dict"), st.lists(st.tuples(text, inner), max_size=3, unique_by=lambda p: p[0])),
    st.tuples(st.just("point"), st.tuples(inner, inner)),
), max_leaves=8)

keytext = st.one_of(
    st.none(),
    st.text(st.characters(min_codepoint=33, max_codepoint=0x2FFF, blacklist_categories=("Cs", "Cc")),
            min_size=1, max_size=20).map(lambda s: "t-" + s),
    st.sampled_from(["t-a:b:c", "t-{x}", "t- with space", "t-é😀", 't-"quoted"', "t-back\\slash", "t-new\nline", "t-%s%d",
                     "t-*", "t-[a]?"]),
)
DEFAULT = object()
NAMES = ["alpha", "beta_2", "with:colon", "ünïcode", "with space"]


def spoil(v) -> None:
    """Change whatever can be changed in a value, as a careless body might."""
    if isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            v.append("spoiled")
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v["spoiled"] = True
    elif isinstance(v, set):
        v.add("spoiled")
    elif isinstance(v, bytearray):
        v.append(1)
    elif isinstance(v, Point):
        spoil(v.x)
        spoil(v.y)


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds),
        "subs": draw(st.lists(st.fixed_dictionaries({
            "name": st.integers(0, len(NAMES) - 1), "key": keytext,
            "path": st.sampled_from(["now", "later", "replace", "retry", "perpetuate", "by-name", "crash", "retry-later", "twice"]),
            "spoils": st.booleans(), "args": st.lists(value, max_size=3),
            "kwargs": st.lists(st.tuples(st.sampled_from(["a", "b", "key", "when", "function", "self_", "é"]), value),
                               max_size=3, unique_by=lambda p: p[0]),
        }), min_size=1, max_size=5, unique_by=lambda s: s["key"] or id(s))),
    }


def run(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)
        got: list[tuple[str, tuple, dict, str]] = []
        spoils = False

        def receive(who, args, kwargs, where):
            got.append((who, *copy.deepcopy((args, kwargs)), where))
            if spoils:
                spoil([*args, *kwargs.values()])

        def make(name):
            async def fn(*args, **kwargs):
                receive(name, args, kwargs, "fn")
            fn.__name__ = name
            return fn

        async def retrying(*args, retry: Retry = Retry(attempts=3), **kwargs):
            receive(f"retrying{retry.attempt}", args, kwargs, "retry")
            if retry.attempt < 3:
                raise ValueError

        async def retrying_later(*args, retry: Retry = Retry(attempts=2, delay=S(1)), **kwargs):
            receive(f"retrying{retry.attempt}", args, kwargs, "retry-later")
            if retry.attempt < 2:
                raise ValueError

        async def perpetual(n, *args, perpetual: Perpetual = Perpetual(), **kwargs):
            got.append((f"perpetual{n}", args, kwargs, "perpetuate"))
            if n == 2:
                perpetual.cancel()
            else:
                perpetual.perpetuate(n + 1, *args, **kwargs)

        async def crashing(*args, **kwargs):
            receive("crashing", args, kwargs, "crash")
            if len([g for g in got if g[3] == "crash"]) == 1:
                w.node.kill()
                await asyncio.sleep(1000)

        fns = [make(n) for n in NAMES]
        lab.tasks = [*fns, retrying, retrying_later, perpetual, crashing]
        w = lab.start_worker("w", restart_after=0.5, redelivery_timeout=S(1), concurrency=1)
        async with lab.docket() as d:
            for sub in case["subs"]:
                args = [build(a) for a in sub["args"]]
                kwargs = {k: build(v) for k, v in sub["kwargs"]}
                path, fn, key = sub["path"], fns[sub["name"]], sub["key"]
                del got[:]
                spoils = sub["spoils"]
                if path == "twice":
                    await d.add(fn)(*args, **kwargs)
                if path in ("now", "by-name", "twice"):
                    ex = await d.add(fn.__name__ if path == "by-name" else fn, key=key)(*args, **kwargs)
                elif path == "later":
                    ex = await d.add(fn, when=utcnow() + S(0.7), key=key)(*args, **kwargs)
                elif path == "replace":
                    k = key or "t-r"
                    await d.add(fn, when=utcnow() + S(5), key=k)("wrong")
                    ex = await d.replace(fn, utcnow() + S(0.3), k)(*args, **kwargs)
                elif path == "retry":
                    ex = await d.add(retrying, key=key)(*args, **kwargs)
                elif path == "retry-later":
                    ex = await d.add(retrying_later, key=key)(*args, **kwargs)
                elif path == "crash":
                    ex = await d.add(crashing, key=key)(*args, **kwargs)
                else:
                    ex = await d.add(perpetual, key=key)(0, *args, **kwargs)
                look = await d.get_execution(ex.key)
                expect = {"retry": 3, "retry-later": 2, "perpetuate": 3, "crash": 2, "twice": 2}.get(path, 1)
                await lab.quiesce(lambda: len(got) >= expect and lab.backlog() == (0, 0), limit=20)
                need(len(got) == expect, f"{path}: the body ran {len(got)} times, not {expect}", "runs")
                for name, a, kw, where in got:
                    need(same(list(a), args), f"{path}: positional arguments {args!r} arrived as {a!r}", "args")
                    need(same({k: kw.get(k) for k in kwargs}, kwargs) and set(kw) == set(kwargs),
                         f"{path}: keyword arguments {kwargs!r} arrived as {kw!r}", "kwargs")
                if path in ("now", "later", "by-name", "replace", "twice"):
                    need(got[0][0] == fn.__name__, f"the call of {fn.__name__} ran {got[0][0]}", "function")
                if key is not None:
                    need(ex.key == key, f"key {key!r} became {ex.key!r}", "key")
                if look is not None and path not in ("perpetuate",):
                    need(same(list(look.args), args) and same(dict(look.kwargs), kwargs) and look.key == ex.key,
                         f"get_execution() shows {look.args!r} {look.kwargs!r}", "lookup")
                    need(look.function_name == ex.function_name, "get_execution() shows another function", "lookup")
                need(lab.stored_state(ex.key) in ("completed", "cancelled"), f"state {lab.stored_state(ex.key)}", "state")
                seen.hit(path)
                seen.hit("spoils", spoils)
                if args or kwargs:
                    seen.nontrivial = True
                await asyncio.sleep(0.5)
        await close_all(w)

    simulate({**case, "lat": "lan"}, main)


# the many ways to write down what a task takes
ANNOTATIONS = ["", "int", "str", "object", "list", "List", "Dict", "Callable", "Type", "Tuple", "list[int]", "dict[str, list[int]]",
               "tuple[()]", "tuple[int, ...]", "Callable[[], int]", "Callable[..., Any]", "Optional[int]", "Union[int, str]",
               "int | None", "Literal['a', 1]", "Any", "Annotated[int, 'x']", "Annotated[list[int], Logged]",
               "Annotated[str, Logged()]", "TypeVar('T')", "None", "'Nowhere'", "Point", "Color", "42"]
DEFAULTS = ["None", "0", "'d'", "()", "[1]", "Color.RED", "Point(1)", "float('nan')", "DEFAULT"]
DEPENDS = ["Retry(attempts=1)", "TaskKey()", "CurrentExecution()", "TaskLogger()", "Timeout(timedelta(seconds=5))", "Depends(give)",
           "CurrentDocket()"]
PARAMS = ["a", "b", "key", "when", "self", "function", "args", "kwargs", "execution", "docket", "worker", "attempt", "message",
          "name", "x1", "timeout", "redis", "é"]


async def give():
    return "given"


@st.composite
def signature(draw):
    names = draw(st.lists(st.sampled_from(PARAMS), max_size=5, unique=True))
    params = []
    for n in names:
        params.append({"name": n, "kind": draw(st.integers(0, 2)), "ann": draw(st.sampled_from(ANNOTATIONS)),
                       "default": draw(st.one_of(st.none(), st.sampled_from(DEFAULTS)))})
    params.sort(key=lambda p: (p["kind"], p["kind"] < 2 and p["default"] is not None))
    seen_default = False
    for p in params:  # Python wants no parameter without a default after one with
        if p["kind"] < 2:
            seen_default = seen_default or p["default"] is not None
            if seen_default and p["default"] is None:
                p["default"] = "None"
    return {"params": params, "star": draw(st.sampled_from(["", "rest", "etc"])), "dstar": draw(st.sampled_from(["", "more"])),
            "depends": draw(st.lists(st.sampled_from(DEPENDS), max_size=2, unique=True)),
            "strings": draw(st.booleans()), "alias": draw(st.sampled_from([None, None, "alias", "ns:alias.é"])),
            "wrapped": draw(st.sampled_from(["", "", "wraps", "method"])),
            "args": draw(st.integers(0, 3)), "kwargs": draw(st.lists(st.sampled_from([*names, *names, "more1", "zz"]), max_size=3, unique=True))}


@st.composite
def calls(draw, tier):
    return {"seed": draw(seeds), "tasks": draw(st.lists(signature(), min_size=1, max_size=4))}


def define(i, t, got):
    """The task a signature describes, and what a plain call of it would be given."""
    parts = []
    kinds = [[p for p in t["params"] if p["kind"] == k] for k in range(3)]

    def spell(p):
        return p["name"] + (f": {p['ann']}" if p["ann"] else "") + (f" = {p['default']}" if p["default"] is not None else "")
    parts += [spell(p) for p in kinds[0]] + (["/"] if kinds[0] else [])
    parts += [spell(p) for p in kinds[1]]
    if t["star"]:
        parts.append("*" + t["star"])
    elif kinds[2] or t["depends"]:
        parts.append("*")
    parts += [spell(p) for p in kinds[2]]
    plain = list(parts) + (["**" + t["dstar"]] if t["dstar"] else [])
    parts += [f"dep{n} = {d}" for n, d in enumerate(t["depends"])] + (["**" + t["dstar"]] if t["dstar"] else [])
    if plain and plain[-1] == "*" or ("*" in plain and not kinds[2]):
        plain.remove("*")
    receive = [p["name"] for p in t["params"]] + [x for x in (t["star"], t["dstar"]) if x]
    given = "{" + ", ".join(f"{n!r}: {n}" for n in receive) + "}"
    if t["wrapped"] == "method":
        parts.insert(0, "this")
    src = f"async def body{i}({', '.join(parts)}):\n    got.append(({i}, {given}, [{', '.join(f'dep{n}' for n in range(len(t['depends'])))}]))\n"
    src += f"def plain{i}({', '.join(plain)}):\n    return {given}\n"
    if t["strings"]:
        src = "from __future__ import annotations\n" + src
    env = dict(globals(), got=got)
    exec(compile(src, f"<task {i}>", "exec", dont_inherit=True), env)
    fn = env[f"body{i}"]
    if t["wrapped"] == "method":
        fn = types.MethodType(fn, Point(i))
    elif t["wrapped"]:
        inner = fn

        @functools.wraps(inner)
        async def fn(*args, **kwargs):
            return await inner(*args, **kwargs)
    return fn, env[f"plain{i}"], src


def run_calls(case, seen: Seen) -> None:
    async def main(sim):
        lab = Lab(sim)
        got: list = []
        made = [define(i, t, got) for i, t in enumerate(case["tasks"])]
        lab.tasks = []
        async with lab.docket() as d:
            for (fn, _, src), t in zip(made, case["tasks"]):
                d.register(fn, names=[t["alias"] + str(fn.__name__)] if t["alias"] else None)
                lab.tasks.append(fn)
            w = Worker(d, name="w", minimum_check_interval=S(0.05), scheduling_resolution=S(0.05))
            async with w:
                running = asyncio.create_task(w.run_forever())
                for i, ((fn, plain, src), t) in enumerate(zip(made, case["tasks"])):
                    args = [f"arg{n}" for n in range(t["args"])]
                    kwargs = {k: f"kw-{k}" for k in t["kwargs"]}
                    try:
                        want = plain(*args, **kwargs)
                    except TypeError:
                        want = None
                    del got[:]
                    name = t["alias"] + fn.__name__ if t["alias"] else fn.__name__
                    ex = await d.add(name if t["alias"] else fn, key=f"t-{i}")(*args, **kwargs)
                    look = await d.get_execution(f"t-{i}")
                    need(look is None or (look.function_name == name == ex.function_name),
                         f"get_execution() shows {look and look.function_name!r} for the task submitted as {name!r}", "lookup")
                    await lab.quiesce(lambda: lab.backlog() == (0, 0), limit=20)
                    need(not running.done(), f"the worker is gone ({running.done() and running.exception()!r}) over\n{src}", "worker")
                    if want is None:
                        need(not got, f"a call that does not fit ran with {got}\n{src}", "misfit")
                        need(lab.stored_state(f"t-{i}") == "failed", f"a call that does not fit: {lab.stored_state(f't-{i}')}\n{src}", "misfit")
                        seen.hit("misfit")
                        continue
                    need(len(got) == 1, f"the body ran {len(got)} times ({lab.stored_state(f't-{i}')}) for {args} {kwargs}\n{src}", "runs")
                    need(repr(got[0][1]) == repr(want), f"{args} {kwargs} arrived as {got[0][1]}, not {want}\n{src}", "args")
                    for dep, value in zip(t["depends"], got[0][2]):
                        ok = {"TaskKey()": value == f"t-{i}", "Depends(give)": value == "given", "CurrentDocket()": value is d}.get(dep, value is not None)
                        need(ok, f"{dep} gave {value!r}\n{src}", "dependency")
                    seen.hit("alias", bool(t["alias"]))
                    seen.hit("depends", bool(t["depends"]))
                    seen.hit("strings", t["strings"])
                    if want:
                        seen.nontrivial = True
                running.cancel()
                await asyncio.gather(running, return_exceptions=True)

    simulate({**case, "lat": "lan"}, main)


PARTS = [Part("payloads", cases, run, quick=700, thorough=30_000, rule="some argument was submitted"),
         Part("signatures", calls, run_calls, quick=400, thorough=15_000, rule="some call fitted a signature with parameters")]
