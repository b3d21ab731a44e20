"""Shared scaffolding for the simulated scenarios.

A Lab owns one simulated deployment: a journal of what task bodies actually did
(kept outside the simulated Redis), dockets opened on nodes, and supervised
workers (restarted when their process dies, the way an init system would).
"""
from __future__ import annotations

import asyncio as _asyncio
import contextlib
from datetime import datetime, timedelta, timezone
from typing import Any, Callable, Iterable

import docket.worker
from docket import Docket, Worker

from .engine import Violation
from .sim import LATENCY, Sim, SimDeadlock, SimLivelock, current_node

UTC = timezone.utc

# How far apart two causally related steps may appear, per latency profile:
# several commands' worth of the profile's worst case.
SLACK = {"zero": 0.05, "lan": 0.2, "wan": 2.5, "spiky": 4.5}


RESEED = "AUTOMATIC_PERPETUAL_RESEED_INTERVAL_SECONDS"

# Seconds per second: with a large unit, the same scenario is played in slow motion (hours
# and days instead of seconds), waits and polling intervals included.
_unit = 1.0


def set_unit(case: Any) -> None:
    global _unit
    _unit = case.get("unit", 1) if isinstance(case, dict) else 1


class _SlowAsyncio:
    """asyncio, with delays counted in the case's unit."""

    def __getattr__(self, name: str) -> Any:
        return getattr(_asyncio, name)

    @staticmethod
    def sleep(delay: float, result: Any = None):
        return _asyncio.sleep(delay * _unit, result)

    @staticmethod
    def timeout(delay: float | None):
        return _asyncio.timeout(None if delay is None else delay * _unit)

    @staticmethod
    def wait(fs: Any, *, timeout: float | None = None, return_when: str = _asyncio.ALL_COMPLETED):
        return _asyncio.wait(fs, timeout=None if timeout is None else timeout * _unit, return_when=return_when)

    @staticmethod
    def wait_for(f: Any, timeout: float | None):
        return _asyncio.wait_for(f, None if timeout is None else timeout * _unit)


asyncio = _SlowAsyncio()


def S(seconds: float) -> timedelta:
    return timedelta(seconds=seconds * _unit)


def secs(d: timedelta) -> float:
    return d.total_seconds() / _unit


def utcnow() -> datetime:
    return datetime.now(UTC)


def need(cond: Any, message: str, signature: str = "") -> None:
    if not cond:
        raise Violation(message, signature)


# Task keys are the users' own: whatever they contain must make no difference.  (Control
# characters other than these, and an empty key, are documented as out of bounds.)
KEY_STYLES = ["k{}", "k{}", "k{}", "customer:{}:k", "k {} é✓", 'k"{}\\"', "k\t{}\n", "{{k{}}}", "k/{}?*[a]", "K{}" + "x" * 300]


def K(case: dict, i: Any) -> str:
    """The key of this case's i-th task."""
    return KEY_STYLES[case["seed"] % len(KEY_STYLES)].format(i)


URLS = {None: "memory://", "redis": "redis://r1:6379/0", "hasty": "redis://r1:6379/0?socket_connect_timeout=2",
        "resp2": "redis://r1:6379/0?protocol=2", "cluster": "redis+cluster://c1:7001",
        "sentinel": "redis+sentinel://s1,s2:26379/mymaster/0"}


class Lab:
    def __init__(self, sim: Sim, **docket_kw: Any):
        self.sim = sim
        self.docket_kw = {"name": "d", "url": URLS[sim.wire], "execution_ttl": S(900), **docket_kw}
        self.worker_kw: dict[str, Any] = {}
        if _unit != 1:
            self.docket_kw.setdefault("heartbeat_interval", S(2))
            self.worker_kw = {"redelivery_timeout": S(300), "reconnection_delay": S(5),
                              "minimum_check_interval": S(0.25), "scheduling_resolution": S(0.25)}
        self.events: list[dict[str, Any]] = []
        self.tasks: list[Callable] = []
        self.worker_ends: list[tuple[float, str, str]] = []

    @property
    def prefix(self) -> str:
        return "{%s}" % self.docket_kw["name"] if self.sim.wire == "cluster" else self.docket_kw["name"]

    # -- journal ------------------------------------------------------------
    def rec(self, kind: str, **f: Any) -> None:
        n = current_node()
        if n is not None and n.dead:
            return
        self.events.append({"t": self.sim.now(), "node": n.name if n else "", "kind": kind, **f})

    def of(self, kind: str, **match: Any) -> list[dict[str, Any]]:
        return [e for e in self.events
                if e["kind"] == kind and all(e.get(k) == v for k, v in match.items())]

    # -- dockets ------------------------------------------------------------
    @contextlib.asynccontextmanager
    async def docket(self, tasks: Iterable[Callable] | None = None, **kw: Any):
        async with Docket(**{**self.docket_kw, **kw}) as d:
            for t in self.tasks if tasks is None else tasks:
                d.register(*t) if isinstance(t, tuple) else d.register(t)
            yield d

    async def wear(self, keys: Iterable[str], n: int) -> None:
        """Give keys n earlier lives, none of which runs."""
        async def worn(): ...

        async def go():
            async with self.docket([]) as d:
                for key in keys:
                    for _ in range(n):
                        await d.replace(worn, utcnow() + S(5000), key)()
                    await d.cancel(key)
        if n:
            await self.sim.node("before", "zero").spawn(go())

    def when(self, at: float) -> datetime:
        """Absolute time for virtual second ``at``."""
        return utcnow() + S(at - self.sim.now())

    async def until(self, at: float) -> None:
        d = at - self.sim.now()
        if d > 0:
            await asyncio.sleep(d)

    # -- workers ------------------------------------------------------------
    async def _one_worker(self, name: str, stop: asyncio.Event, ready: asyncio.Event | None,
                          docket_kw: dict, worker_kw: dict) -> None:
        async with self.docket(**docket_kw) as d:
            async with Worker(d, name=name, **worker_kw) as w:
                run = asyncio.ensure_future(w.run_forever())
                stopper = asyncio.ensure_future(stop.wait())
                if ready is not None:
                    ready.set()
                try:
                    await asyncio.wait({run, stopper}, return_when=asyncio.FIRST_COMPLETED)
                finally:
                    stopper.cancel()
                if not run.done():
                    run.cancel()
                    with contextlib.suppress(asyncio.CancelledError):
                        await run
                else:
                    run.result()

    def start_worker(self, name: str, *, restart_after: float | None = 1.0, node_name: str | None = None,
                     docket_kw: dict | None = None, **worker_kw: Any) -> "Supervised":
        return Supervised(self, name, restart_after, node_name or name, docket_kw or {}, {**self.worker_kw, **worker_kw})

    async def quiesce(self, done: Callable[[], bool], limit: float, step: float = 0.25) -> bool:
        """Let virtual time pass until ``done()`` or ``limit`` seconds more."""
        end = self.sim.now() + limit
        while not done():
            if self.sim.now() >= end:
                return False
            await asyncio.sleep(step)
        return True

    # -- oracles on storage (no latency) --------------------------------------
    def run_hash(self, key: str, name: str | None = None) -> dict[str, bytes]:
        p = name or self.prefix
        return {k.decode(): v for k, v in self.sim.server.q("hgetall", f"{p}:runs:{key}").items()}

    def stored_state(self, key: str) -> str | None:
        v = self.sim.server.q("hget", f"{self.prefix}:runs:{key}", "state")
        return v.decode() if v is not None else None

    def backlog(self) -> tuple[int, int]:
        p = self.prefix
        return (self.sim.server.q("xlen", f"{p}:stream"), self.sim.server.q("zcard", f"{p}:queue"))


class Supervised:
    """A worker process under a supervisor that restarts it when it dies."""

    def __init__(self, lab: Lab, name: str, restart_after: float | None, node_name: str,
                 docket_kw: dict, worker_kw: dict):
        self.lab, self.name, self.restart_after = lab, name, restart_after
        self.node_name, self.docket_kw, self.worker_kw = node_name, docket_kw, worker_kw
        self.stop_event = asyncio.Event()
        self.deaths = 0
        self.ended_silently = 0
        self.incarnation = 0
        self.node = lab.sim.node(node_name)
        self.supervisor = asyncio.ensure_future(self._supervise())

    async def _supervise(self) -> None:
        lab = self.lab
        node, task = self.node, None
        while not self.stop_event.is_set():
            node = self.node
            task = node.spawn(lab._one_worker(self.name, self.stop_event, None, self.docket_kw, self.worker_kw))
            while not task.done() and not node.dead:
                await asyncio.wait({task}, timeout=0.2)
            if node.dead:
                self.deaths += 1
            elif task.done() and not self.stop_event.is_set():
                exc = None if task.cancelled() else task.exception()
                lab.worker_ends.append((lab.sim.now(), self.name, repr(exc)))
                if exc is None:
                    self.ended_silently += 1
                else:
                    self.deaths += 1
            if self.stop_event.is_set() or self.restart_after is None:
                break
            await asyncio.sleep(self.restart_after)
            if node.dead:
                self.incarnation += 1
                new = lab.sim.node(f"{self.node_name}'{self.incarnation}", node.latency)
                new.outage = node.outage
                self.node = new
        while task is not None and not node.dead and not task.done():
            await asyncio.wait({task}, timeout=0.2)

    async def stop(self) -> None:
        self.stop_event.set()
        await self.supervisor


def simulate(case: dict, main: Callable[[Sim], Any], horizon: float = 20_000.0, max_turns: int = 3_000_000) -> Sim:
    """Run one scenario; a hang of the system under test is a violation."""
    set_unit(case)
    interval = getattr(docket.worker, RESEED, None)
    if interval is not None:
        setattr(docket.worker, RESEED, interval * _unit)
    sim = Sim(seed=case.get("seed", 0), latency=case.get("lat", "lan"), max_turns=max_turns,
              epoch=case.get("epoch"), unit=_unit, wire=case.get("wire"))
    try:
        sim.run(main, horizon=horizon)
        if sim.wire == "cluster":
            need(not sim.net.crossed, f"keys in different slots of the cluster: {sim.net.crossed[:3]}", "crossslot")
    except SimDeadlock as e:
        raise Violation(f"deadlock: {e}", "deadlock") from None
    except SimLivelock as e:
        raise Violation(f"livelock: {e}", "livelock") from None
    except TimeoutError:
        raise Violation(f"the scenario did not finish within {horizon} virtual seconds", "hang") from None
    finally:
        if interval is not None:
            setattr(docket.worker, RESEED, interval)
    return sim


async def close_all(*supervised: Supervised) -> None:
    await asyncio.gather(*(s.stop() for s in supervised))


__all__ = ["Lab", "Supervised", "S", "secs", "utcnow", "need", "spread", "WRITTEN", "simulate", "SLACK", "LATENCY", "UTC", "close_all", "K", "URLS",
           "Violation", "asyncio", "Docket", "Worker", "Iterable"]


def spread(fn, how: str, **kw) -> tuple[tuple, dict]:
    """The same call, written another way: by keyword, by position, or leaving defaults out."""
    import inspect

    params = inspect.signature(fn).parameters
    if how == "default":
        kw = {k: v for k, v in kw.items() if not (type(params[k].default) is type(v) and params[k].default == v)}
    if how == "kw":
        return (), kw
    args = []
    for name in params:
        if name not in kw:
            break
        args.append(kw.pop(name))
    return tuple(args), kw


WRITTEN = ["kw", "pos", "default"]
