"""The docket command line, run as a process of the simulated deployment.

The command itself is ordinary synchronous code that calls asyncio.run(); it is played in a
thread of its own that takes turns with the simulation, and the coroutine it asks to run is
run on a node of the simulation, in virtual time."""
from __future__ import annotations

import asyncio
import asyncio.runners
import contextlib
import logging
import queue
import re
import threading
from dataclasses import dataclass
from typing import Any

import rich.live
from typer.testing import CliRunner

from .lab import URLS, Violation
from .sim import Sim


@dataclass
class Ran:
    code: int
    out: str
    exc: BaseException | None
    began: float
    ended: float

    def cells(self) -> list[list[str]]:
        """The rows of the tables that were printed."""
        return [[c.strip() for c in re.split("[│┃|]", line.strip("│┃|"))] for line in self.out.splitlines() if line[:1] in "│┃|"]


@contextlib.contextmanager
def _held():
    """Leave logging and rich as they were."""
    root = logging.getLogger()
    handlers, level, init = list(root.handlers), root.level, rich.live.Live.__init__

    def without_refresh(self, *a: Any, **k: Any) -> None:
        init(self, *a, **{**k, "auto_refresh": False})  # frames are drawn when something changes

    rich.live.Live.__init__ = without_refresh  # type: ignore[method-assign]
    try:
        yield
    finally:
        rich.live.Live.__init__ = init  # type: ignore[method-assign]
        root.handlers[:] = handlers
        root.setLevel(level)


async def docket_cli(sim: Sim, *args: str, env: dict[str, str | None] | None = None, node: str = "cli",
                     limit: float = 600.0, url: bool = True) -> Ran:
    from docket.cli import app

    asks: queue.SimpleQueue = queue.SimpleQueue()
    answers: queue.SimpleQueue = queue.SimpleQueue()

    class Runner:
        def __init__(self, **_: Any): ...

        def __enter__(self):
            return self

        def __exit__(self, *_: Any): ...

        def close(self): ...

        def run(self, coro: Any, *, context: Any = None) -> Any:
            asks.put(("run", coro))
            ok, value = answers.get()
            if ok:
                return value
            raise value

    def command() -> None:
        try:
            asks.put(("done", CliRunner().invoke(app, list(args), env={"COLUMNS": "2000", "LINES": "60", **(env or {})})))
        except BaseException as e:  # noqa: BLE001
            asks.put(("broke", e))

    if url:
        args = (*args[: 2 if args[0] in ("tasks", "workers") else 1], "--url", URLS[sim.wire], *args[2 if args[0] in ("tasks", "workers") else 1:])
    began = sim.now()
    real = asyncio.runners.Runner
    with _held():
        asyncio.runners.Runner = Runner  # type: ignore[misc, assignment]
        thread = threading.Thread(target=command, daemon=True)
        thread.start()
        try:
            while True:
                what, value = asks.get()  # the command's turn
                if what != "run":
                    break
                task = sim.node(node).spawn(value)
                try:
                    await asyncio.wait({task}, timeout=limit)
                except BaseException:
                    task.cancel()
                    answers.put((False, KeyboardInterrupt()))
                    asks.get()
                    raise
                late = not task.done()
                if late:
                    task.cancel()
                    await asyncio.wait({task}, timeout=30)
                if late or task.cancelled():
                    answers.put((False, KeyboardInterrupt()))
                elif task.exception() is not None:
                    answers.put((False, task.exception()))
                else:
                    answers.put((True, task.result()))
                if late:
                    asks.get()
                    raise Violation(f"docket {' '.join(args)!r} was still running after {limit}s", "cli-hangs")
        finally:
            thread.join(10)
            asyncio.runners.Runner = real  # type: ignore[misc]
    if what == "broke":
        raise value
    out = "".join(line.rstrip() + "\n" for line in value.output.splitlines() if line.strip())
    return Ran(value.exit_code, out, value.exception, began, sim.now())
