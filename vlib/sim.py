"""Deterministic simulation of a docket deployment.

* One process, one asyncio event loop, *virtual time*: the libc clock is
  interposed (vclock.c), and the event loop's selector advances that clock
  instead of sleeping.  The Redis stand-in (burner-redis, the project's own
  memory:// backend) reads the same clock, so TTLs, stream ids and idle times
  are virtual too.  Nothing depends on the wall clock.
* Every Redis command any part of docket issues goes through SimClient, which
  delays it by seeded latencies before it takes effect and before its reply
  arrives (so concurrent clients interleave at every command boundary), and
  can drop it, drop its reply, stall it, or kill the node that issued it.
* A *node* stands for an operating-system process (one worker, one client).
  Which node issues a command is a context variable, inherited by the tasks a
  node spawns.  A killed node's commands never take effect again.

The project is entered only through its public surface: Docket(url="memory://"),
Worker, Execution, ...; the backend is substituted at burner_redis.BurnerRedis,
the class that docket instantiates for memory:// URLs.
"""
from __future__ import annotations

import asyncio
import contextlib
import contextvars
import ctypes
import hashlib
import logging
import math
import os
import random
import re
import selectors
import sys
from collections import deque
from typing import Any, Callable

import burner_redis
import redis.exceptions

_L = ctypes.CDLL(os.environ["VERIF_VCLOCK"])
_L.vclock_enable.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
_L.vclock_advance.argtypes = [ctypes.c_longlong]
_L.vclock_shift_real.argtypes = [ctypes.c_longlong]
_L.vclock_real_mono.restype = ctypes.c_longlong

EPOCH_NS = 1_750_000_000_000_000_000  # 2025-06-15T15:06:40Z
# Far beyond any uptime: a timed wait of a backend thread (its expiry sweep), whose deadline
# the kernel compares with its own clock, never fires, so expiry is only ever lazy.
MONO_NS = 100_000_000 * 1_000_000_000
_RealBurner = burner_redis.BurnerRedis


def real_monotonic() -> float:
    return _L.vclock_real_mono() / 1e9


class SimDeadlock(Exception):
    """Nothing can ever run again: every task waits for something that cannot happen."""


class SimLivelock(Exception):
    """The simulation keeps running without virtual time making progress."""


class HarnessError(Exception):
    """The harness itself (not the code under test) is at fault."""


# --------------------------------------------------------------------------
# virtual-time event loop
# --------------------------------------------------------------------------


class _VSelector(selectors.SelectSelector):
    loop: "VLoop"

    def select(self, timeout=None):
        lp = self.loop
        lp.turns += 1
        if lp.turns > lp.max_turns:
            raise SimLivelock(f"more than {lp.max_turns} event-loop turns")
        if timeout is None:
            raise SimDeadlock("every task is waiting and no timer is pending")
        if timeout > 0:
            _L.vclock_advance(math.ceil(timeout * 1e9) + 1000)
        else:
            _L.vclock_advance(200)
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, max_turns: int):
        self.turns = 0
        self.max_turns = max_turns
        sel = _VSelector()
        sel.loop = self
        super().__init__(sel)

    def call_at(self, when, callback, *args, context=None):
        node = context.get(_node) if context is not None else _node.get()
        if node is not None and node.dead and not node.sim.finishing:
            # a process that is gone does not go on polling
            return asyncio.TimerHandle(when, callback, args, self, context)
        return super().call_at(when, callback, *args, context=context)

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except Exception as e:  # noqa: BLE001
            fut.set_exception(e)
        return fut


# --------------------------------------------------------------------------
# nodes
# --------------------------------------------------------------------------

LATENCY: dict[str, tuple[float, float, float, float]] = {
    # profile: (base, spread, spike probability, spike length), seconds each way
    "zero": (0.0, 0.0, 0.0, 0.0),
    "lan": (0.0, 0.002, 0.0, 0.0),
    "wan": (0.0, 0.03, 0.05, 0.2),
    "spiky": (0.0, 0.004, 0.15, 0.4),
}


class Node:
    def __init__(self, sim: "Sim", name: str, latency: str):
        self.sim = sim
        self.name = name
        self.latency = latency
        self.dead = False
        self.died: float | None = None
        self.outage: list[tuple[float, float]] = []
        self.commands = 0
        self.faults: list[dict[str, Any]] = []
        self.fired: list[str] = []
        self.tasks: list[asyncio.Task] = []

    def active(self):
        return _activate(self)

    def spawn(self, coro) -> asyncio.Task:
        ctx = contextvars.copy_context()
        ctx.run(_node.set, self)
        t = self.sim.loop.create_task(coro, context=ctx)
        self.tasks.append(t)
        return t

    def kill(self) -> None:
        if not self.dead:
            self.died = self.sim.now()
        self.dead = True
        self.sim.note(self.name, "KILLED")
        self.sim.wake()

    def is_out(self, now: float) -> bool:
        return any(a <= now < b for a, b in self.outage)

    def next_outage(self, now: float) -> float | None:
        s = [a for a, _ in self.outage if a > now]
        return min(s) if s else None


_node: contextvars.ContextVar[Node | None] = contextvars.ContextVar("sim_node", default=None)


@contextlib.contextmanager
def _activate(node: Node):
    tok = _node.set(node)
    try:
        yield node
    finally:
        _node.reset(tok)


def current_node() -> Node | None:
    return _node.get()


def _drive(aw: Any) -> Any:
    """Run an awaitable that completes without suspending."""
    it = aw.__await__()
    try:
        next(it)
    except StopIteration as e:
        return e.value
    raise HarnessError("a backend command suspended")


_PUB_PROLOGUE = (
    "local __r=redis; local redis=setmetatable({call=function(c,...) "
    "if string.upper(c)=='PUBLISH' then local a={...}; __r.call('RPUSH','\\0vpub',a[1],a[2]); return 0 end "
    "return __r.call(c,...) end, pcall=function(c,...) "
    "if string.upper(c)=='PUBLISH' then local a={...}; __r.call('RPUSH','\\0vpub',a[1],a[2]); return 0 end "
    "return __r.pcall(c,...) end},{__index=__r}); "
)
_VPUB = b"\0vpub"

# the only commands that can put an entry in a stream
_ADDERS = {"xadd", "eval", "evalsha", "execute_pipeline"}


class SimServer:
    """One Redis server: storage, scripting and streams by burner-redis, pub/sub by us."""

    def __init__(self, sim: "Sim"):
        self.sim = sim
        self.tagged: dict[str, bytes] = {}
        self.b = _RealBurner()
        self.scripts: dict[str, str] = {}
        self.subs: list["SimPubSub"] = []
        self.waiters: list[asyncio.Future] = []

    # -- raw synchronous execution -----------------------------------------
    def _script(self, text: str | bytes) -> str:
        if isinstance(text, bytes):
            text = text.decode()
        return _PUB_PROLOGUE + text

    def execute(self, name: str, args: tuple, kwargs: dict) -> Any:
        b = self.b
        self.sim.stats["commands"] += 1
        try:
            if name == "publish":
                return self.publish(args[0], args[1] if len(args) > 1 else kwargs["message"])
            if name == "script_load":
                text = args[0] if isinstance(args[0], str) else args[0].decode()
                sha = hashlib.sha1(text.encode()).hexdigest()
                self.scripts[sha] = _drive(b.script_load(self._script(text)))
                return sha
            if name == "script_exists":
                return [s in self.scripts for s in args]
            if name == "evalsha":
                sha = self.scripts.get(args[0] if isinstance(args[0], str) else args[0].decode())
                if sha is None:
                    raise burner_redis.NoScriptError("NOSCRIPT No matching script. Please use EVAL.")
                self.sim.stats["scripts"] += 1
                r = _drive(b.evalsha(sha, *args[1:], **kwargs))
                self._drain()
                return r
            if name == "eval":
                r = _drive(b.eval(self._script(args[0]), *args[1:], **kwargs))
                self._drain()
                return r
            if name == "execute_pipeline":
                out = []
                for n, a, k in args[0]:
                    try:
                        out.append(self.execute(n, a, k))
                    except HarnessError:
                        raise
                    except Exception as e:  # noqa: BLE001
                        out.append(e)
                return out
            if name == "setex":
                return _drive(b.set(args[0], args[2], ex=args[1]))
            if name == "ping":
                return True
            if name in ("xread", "xreadgroup"):
                kwargs = {k: v for k, v in kwargs.items() if k != "block"}
            return _drive(getattr(b, name)(*args, **kwargs))
        finally:
            if name in _ADDERS:
                self.wake()

    def wake(self) -> None:
        ws, self.waiters = self.waiters, []
        for w in ws:
            if not w.done():
                w.set_result(None)

    def _drain(self) -> None:
        items = _drive(self.b.lrange(_VPUB, 0, -1))
        if items:
            _drive(self.b.delete(_VPUB))
            for i in range(0, len(items), 2):
                self.publish(items[i], items[i + 1])

    def publish(self, channel, message) -> int:
        ch = channel.encode() if isinstance(channel, str) else bytes(channel)
        if isinstance(message, (int, float)):
            message = str(message)
        data = message.encode() if isinstance(message, str) else bytes(message)
        self.sim.on_publish(ch, data)
        n = 0
        for s in list(self.subs):
            n += s._offer(ch, data)
        return n

    # convenience, no latency, for oracles
    def q(self, name: str, *args, **kwargs) -> Any:
        if self.sim.wire == "cluster":  # where the names of keys begin with a hash tag
            args = tuple(self.tagged.get(a, re.sub(r"^(\w+):", r"{\1}:", a)) if isinstance(a, str) else a for a in args)
        r = self.execute(name, args, kwargs)
        if self.sim.wire and name == "keys":
            names = {k: re.sub(rb"^\{(.+?)\}:", rb"\1:", k) for k in r if not k.startswith(b"\0v")}
            self.tagged.update({n.decode("utf-8", "replace"): k for k, n in names.items()})
            r = list(names.values())
        return r

    def keys(self) -> list[str]:
        return sorted(k.decode("utf-8", "replace") for k in _drive(self.b.keys("*")) if not k.startswith(b"\0v"))


class SimClient:
    """What docket sees as its memory:// client."""

    def __init__(self, *_a, **_k):
        sim = Sim.current
        if sim is None:
            raise HarnessError("memory client created outside a simulation")
        self._sim = sim
        self._srv = sim.server

    def __getattr__(self, name: str):
        if name.startswith("_"):
            raise AttributeError(name)
        if name != "ping" and not hasattr(_RealBurner, name):
            raise AttributeError(name)

        async def command(*args, **kwargs):
            return await self._sim.command(self._srv, name, args, kwargs)

        self.__dict__[name] = command
        return command

    def pipeline(self, *a, **k):
        return burner_redis.Pipeline(self)

    def lock(self, name, timeout=None, sleep=0.1, blocking=True, blocking_timeout=None):
        return burner_redis.Lock(self, name, timeout=timeout, sleep=sleep, blocking=blocking,
                                 blocking_timeout=blocking_timeout)

    def pubsub(self, ignore_subscribe_messages=False, **_):
        return SimPubSub(self._sim, self._srv, ignore_subscribe_messages)

    def register_script(self, script):
        return burner_redis.Script(self, script)

    async def scan_iter(self, match=None, count=None, _type=None):
        for k in await self.keys(match if match is not None else "*"):
            yield k

    async def aclose(self):
        pass

    close = aclose

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return None

    async def blpop(self, *a, **k):
        raise HarnessError("blocking list commands are not simulated")

    brpop = blmove = blpop


class _Factory:
    """Stands in for burner_redis.BurnerRedis inside a simulation."""

    def __call__(self, *a, **k):
        if Sim.current is None:
            return _RealBurner(*a, **k)
        return SimClient(*a, **k)

    def __getattr__(self, name):
        return getattr(_RealBurner, name)

    def __instancecheck__(self, obj):
        return isinstance(obj, (SimClient, _RealBurner))


burner_redis.BurnerRedis = _Factory()  # type: ignore[misc,assignment]


def _glob(pattern: bytes) -> re.Pattern[bytes]:
    out, i = b"", 0
    p = pattern
    while i < len(p):
        c = p[i:i + 1]
        if c == b"*":
            out += b".*"
        elif c == b"?":
            out += b"."
        elif c == b"\\" and i + 1 < len(p):
            i += 1
            out += re.escape(p[i:i + 1])
        elif c == b"[":
            j = p.find(b"]", i)
            if j < 0:
                out += re.escape(c)
            else:
                body = p[i + 1:j].replace(b"\\", b"\\\\")
                out += b"[" + body + b"]"
                i = j
        else:
            out += re.escape(c)
        i += 1
    return re.compile(out + rb"\Z", re.S)


def _enc(v) -> bytes:
    return v if isinstance(v, bytes) else str(v).encode()


class SimPubSub:
    PUBLISH_MESSAGE_TYPES = ("message", "pmessage")

    def __init__(self, sim: "Sim", srv: SimServer, ignore: bool):
        self._sim, self._srv = sim, srv
        self.ignore_subscribe_messages = ignore
        self.channels: dict[bytes, Any] = {}
        self.patterns: dict[bytes, Any] = {}
        self._rx: dict[bytes, re.Pattern[bytes]] = {}
        self._q: deque = deque()
        self._w: list[asyncio.Future] = []

    @property
    def subscribed(self):
        return bool(self.channels or self.patterns)

    def _put(self, m) -> None:
        self._q.append(m)
        ws, self._w = self._w, []
        for w in ws:
            if not w.done():
                w.set_result(None)

    def _offer(self, ch: bytes, data: bytes) -> int:
        n = 0
        if ch in self.channels:
            self._put({"type": "message", "pattern": None, "channel": ch, "data": data})
            n += 1
        for pat, rx in self._rx.items():
            if rx.match(ch):
                self._put({"type": "pmessage", "pattern": pat, "channel": ch, "data": data})
                n += 1
        return n

    async def _sub(self, kind: str, names, handlers) -> None:
        new = {_enc(a): None for a in names} | {_enc(k): h for k, h in handlers.items()}

        def effect():
            for n, h in new.items():
                if kind == "subscribe":
                    self.channels[n] = h
                else:
                    self.patterns[n] = h
                    self._rx[n] = _glob(n)
                self._put({"type": kind, "pattern": None, "channel": n,
                           "data": len(self.channels) + len(self.patterns)})
            if self not in self._srv.subs:
                self._srv.subs.append(self)

        await self._sim.command(self._srv, kind, tuple(new), {}, effect=effect)

    async def subscribe(self, *args, **kw):
        await self._sub("subscribe", args, kw)

    async def psubscribe(self, *args, **kw):
        await self._sub("psubscribe", args, kw)

    async def _unsub(self, kind: str, names) -> None:
        table = self.channels if kind == "unsubscribe" else self.patterns
        todo = [_enc(a) for a in names] or list(table)
        if not todo:
            return

        def effect():
            for n in todo:
                table.pop(n, None)
                self._rx.pop(n, None)
                self._put({"type": kind, "pattern": None, "channel": n,
                           "data": len(self.channels) + len(self.patterns)})
            if not self.subscribed and self in self._srv.subs:
                self._srv.subs.remove(self)

        await self._sim.command(self._srv, kind, tuple(todo), {}, effect=effect)

    async def unsubscribe(self, *a):
        await self._unsub("unsubscribe", a)

    async def punsubscribe(self, *a):
        await self._unsub("punsubscribe", a)

    def _drop(self) -> None:
        if self in self._srv.subs:
            self._srv.subs.remove(self)

    async def get_message(self, ignore_subscribe_messages=False, timeout=0.0):
        sim = self._sim
        node = _node.get()
        if timeout and sim.unit > 1:  # fixed polling intervals would never end
            timeout = max(timeout, 0.25 * sim.unit)
        deadline = None if timeout is None else sim.loop.time() + timeout
        first = True
        while True:
            if node is not None:
                if node.dead:
                    self._drop()
                    await sim.never(node)
                if node.is_out(sim.now()):
                    self._drop()
                    await sim.latency(node)
                    raise redis.exceptions.ConnectionError("simulated: connection lost (pub/sub)")
            while self._q:
                m = self._q.popleft()
                r = self._handle(m, ignore_subscribe_messages)
                if r is not None:
                    if m["type"] in self.PUBLISH_MESSAGE_TYPES:
                        await sim.latency(node)
                    return r
            if timeout == 0.0 and not first:
                return None
            if timeout == 0.0:
                first = False
                await asyncio.sleep(0)
                continue
            now = sim.loop.time()
            if deadline is not None and now >= deadline:
                return None
            fut = sim.loop.create_future()
            self._w.append(fut)
            sim.track(fut)
            await sim.wait_fut(fut, None if deadline is None else deadline - now, node)

    def _handle(self, m, ignore):
        t = m["type"]
        if t in self.PUBLISH_MESSAGE_TYPES:
            h = self.patterns.get(m["pattern"]) if t == "pmessage" else self.channels.get(m["channel"])
            if h is not None:
                h(m)
                return None
            return m
        if ignore or self.ignore_subscribe_messages:
            return None
        return m

    async def listen(self):
        while self.subscribed:
            m = await self.get_message(timeout=None)
            if m is not None:
                yield m

    async def aclose(self):
        self.channels.clear()
        self.patterns.clear()
        self._rx.clear()
        self._drop()

    close = reset = aclose

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        await self.aclose()


# --------------------------------------------------------------------------
# the simulation
# --------------------------------------------------------------------------


class Sim:
    current: "Sim | None" = None

    def __init__(self, seed: int = 0, latency: str = "lan", max_turns: int = 3_000_000,
                 epoch: float | None = None, unit: float = 1.0, wire: str | None = None):
        self.wire = wire  # a Redis deployment that speaks RESP (see wire.py), not memory://
        self.unit = unit  # seconds per second as now() counts them: a slow-motion deployment
        self.epoch_ns = EPOCH_NS if epoch is None else int(epoch * 1e9)
        self.rng = random.Random(seed)
        self.default_latency = latency
        self.max_turns = max_turns
        self.nodes: dict[str, Node] = {}
        self.trace: list[tuple] = []
        self.stats = {"commands": 0, "scripts": 0, "faults": 0}
        self.publishes: list[tuple[float, bytes, bytes]] = []
        self.t0 = 0.0
        self._tracked: set[asyncio.Future] = set()
        self.finishing = False

    # -- time ---------------------------------------------------------------
    def now(self) -> float:
        """Virtual seconds since the start of the simulation."""
        return (self.loop.time() - self.t0) / self.unit

    def note(self, *what) -> None:
        self.trace.append((round(self.now(), 6), *what))

    def on_publish(self, ch: bytes, data: bytes) -> None:
        self.publishes.append((self.now(), ch, data))

    # -- nodes --------------------------------------------------------------
    def node(self, name: str, latency: str | None = None) -> Node:
        n = self.nodes.get(name)
        if n is None:
            n = self.nodes[name] = Node(self, name, latency or self.default_latency)
        return n

    def track(self, fut) -> None:
        self._tracked.add(fut)
        fut.add_done_callback(self._tracked.discard)

    def wake(self) -> None:
        self.server.wake()
        for f in list(self._tracked):
            if not f.done():
                f.set_result(None)

    async def never(self, node: Node) -> None:
        if self.finishing:
            raise asyncio.CancelledError("node is gone")
        fut = self.loop.create_future()
        await fut

    async def latency(self, node: Node | None) -> None:
        if node is None:
            await asyncio.sleep(0)
            return
        base, spread, p, spike = LATENCY[node.latency]
        d = base + (self.rng.random() * spread if spread else 0.0)
        if p and self.rng.random() < p:
            d += self.rng.random() * spike
        await asyncio.sleep(d)

    async def wait_fut(self, fut: asyncio.Future, timeout: float | None, node: Node | None) -> None:
        if node is not None:
            nxt = node.next_outage(self.now())
            if nxt is not None:
                t = (nxt - self.now()) * self.unit + 0.0005
                timeout = t if timeout is None else min(timeout, t)
        if timeout is None:
            await fut
        else:
            h = self.loop.call_later(timeout, lambda: None if fut.done() else fut.set_result(None))
            try:
                await fut
            finally:
                h.cancel()

    # -- commands -----------------------------------------------------------
    def _fault_for(self, node: Node, name: str, args: tuple) -> str | None:
        node.commands += 1
        for f in node.faults:
            if f.get("spent"):
                continue
            if f.get("cmd") not in (None, name) or self.now() < f.get("from", 0):
                continue
            f["count"] = f.get("count", 0) + 1
            if f["count"] == f["nth"]:
                f["spent"] = True
                self.stats["faults"] += 1
                node.fired.append(f["kind"])
                return f["kind"]
        return None

    async def command(self, srv: SimServer, name: str, args: tuple, kwargs: dict,
                      effect: Callable[[], Any] | None = None) -> Any:
        node = _node.get()
        if node is None:
            raise HarnessError("a command was issued outside every node")
        if node.dead:
            await self.never(node)
        fault = self._fault_for(node, name, args)
        await self.latency(node)
        if node.dead:
            await self.never(node)
        if fault == "kill_before":
            node.kill()
            await self.never(node)
        if fault == "drop_request" or node.is_out(self.now()):
            self.note(node.name, "fault", "request lost", name)
            raise redis.exceptions.ConnectionError(f"simulated: connection lost before {name}")
        if effect is not None:
            result = effect()
        elif name in ("xreadgroup", "xread") and kwargs.get("block") is not None:
            result = await self._blocking(srv, node, name, args, dict(kwargs))
        else:
            result = srv.execute(name, args, kwargs)
        if fault == "kill_after":
            node.kill()
            await self.never(node)
        await self.latency(node)
        if node.dead:
            await self.never(node)
        if fault == "drop_reply":
            self.note(node.name, "fault", "reply lost", name)
            raise redis.exceptions.ConnectionError(f"simulated: connection lost after {name}")
        return result

    async def _blocking(self, srv, node, name, args, kwargs):
        block = kwargs.pop("block")
        if block and self.unit > 1:
            block = max(block, 250 * self.unit)
        deadline = None if block == 0 else self.loop.time() + block / 1000
        args = list(args)
        if name == "xread":
            streams = dict(kwargs.pop("streams", None) or args.pop(0))
            for s, i in streams.items():
                if i in ("$", b"$"):
                    streams[s] = srv.b._stream_last_id(s)
            args.insert(0, streams)
            keys = list(streams)
        else:
            keys = list(kwargs.get("streams") or args[2])
        before: Any = None
        result: Any = None
        while True:
            if node.dead:
                await self.never(node)
            if node.is_out(self.now()):
                raise redis.exceptions.ConnectionError("simulated: connection lost while blocked")
            last = [srv.b._stream_last_id(s) for s in keys]
            if last != before:
                result = srv.execute(name, tuple(args), kwargs)
                if result:
                    return result
                before = last
            now = self.loop.time()
            if deadline is not None and now >= deadline:
                return result
            fut = self.loop.create_future()
            srv.waiters.append(fut)
            self.track(fut)
            await self.wait_fut(fut, None if deadline is None else deadline - now, node)

    # -- running ------------------------------------------------------------
    def run(self, main: Callable[["Sim"], Any], horizon: float = 100_000.0) -> Any:
        """Run ``await main(sim)`` to completion under virtual time."""
        logging.disable(logging.CRITICAL)
        rand_state = random.getstate()
        random.seed(self.rng.random())
        _L.vclock_enable(MONO_NS, self.epoch_ns)
        Sim.current = self
        self.loop = loop = VLoop(self.max_turns)
        loop.set_exception_handler(lambda *_: None)
        self.server = SimServer(self)
        if self.wire:
            from . import wire

            self.net = wire.Net(self, self.wire)
            asyncio.open_connection, asyncio.open_unix_connection = self.net.open, self.net.open_unix  # type: ignore[assignment]
        try:
            asyncio.set_event_loop(loop)
            self.t0 = loop.time()

            async def bounded():
                _node.set(self.node("main"))
                async with asyncio.timeout(horizon * self.unit):
                    return await main(self)

            return loop.run_until_complete(bounded())
        finally:
            self.finishing = True
            try:
                self._teardown(loop)
            finally:
                Sim.current = None
                if self.wire:
                    asyncio.open_connection, asyncio.open_unix_connection = wire.REAL_OPEN, wire.REAL_UNIX  # type: ignore[assignment]
                asyncio.set_event_loop(None)
                _L.vclock_disable()
                random.setstate(rand_state)
                if self.wire and self.net.errors:
                    raise HarnessError(self.net.errors[0])

    def _teardown(self, loop: VLoop) -> None:
        loop.turns = 0
        loop.max_turns = 200_000
        for n in self.nodes.values():
            n.dead = True
        for _ in range(6):
            tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
            if not tasks:
                break
            for t in tasks:
                t.cancel()

            async def settle():
                for _ in range(10):
                    await asyncio.sleep(0)

            try:
                loop.run_until_complete(settle())
            except BaseException:  # noqa: BLE001
                break
        with contextlib.suppress(BaseException):
            loop.run_until_complete(loop.shutdown_asyncgens())
        for t in asyncio.all_tasks(loop):
            t._log_destroy_pending = False
        loop.close()


sys.unraisablehook = lambda *_: None
