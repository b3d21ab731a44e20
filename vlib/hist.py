"""Client histories on shared keys: several clients add / replace / cancel, workers run.

Every submission carries a unique token, so the journal tells which submission
each run of a body belongs to.  The checks only use facts with a fixed order in
real time (a call's start and end, a body's start and end), so any interleaving
of the commands in between is accepted.
"""
from __future__ import annotations

from typing import Annotated

from hypothesis import strategies as st

from docket import ConcurrencyLimit, Retry

from .gens import times
from .lab import *


def ops(kinds, keys: int, horizon: float, clients: int, max_size: int, min_size: int = 2, flavors=None,
        durs=(0, 0, 0.1, 0.5, 1.5, 4), delays=(0, 0, 0, 0.3, 1, 3)):
    return st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(kinds),
        "key": st.integers(0, keys - 1),
        "client": st.integers(0, clients - 1),
        "at": st.one_of(times(horizon, 0.25), times(horizon, 0.01)),
        "delay": st.sampled_from(list(delays)),
        "dur": st.sampled_from(list(durs)),
        "fails": st.sampled_from([0, 0, 0, 1, 2]),
        "flavor": st.sampled_from(flavors or ["plain", "plain", "limited"]),
    }), min_size=min_size, max_size=max_size)


class History:
    """Runs the scripted operations and journals them."""

    def __init__(self, lab: Lab, case: dict):
        self.lab, self.case = lab, case
        retry_delay = case.get("rdelay", 1.0)
        self.ops: list[dict] = []

        async def plain(token: int, dur: float, fails: int,
                        retry: Retry = Retry(attempts=4, delay=S(retry_delay))):
            await self.body(token, dur, fails, retry.attempt)

        async def limited(token: int, group: Annotated[int, ConcurrencyLimit(1)], dur: float, fails: int,
                          retry: Retry = Retry(attempts=4, delay=S(retry_delay))):
            await self.body(token, dur, fails, retry.attempt)

        self.plain, self.limited = plain, limited
        lab.tasks = [plain, limited]

    async def body(self, token: int, dur: float, fails: int, attempt: int) -> None:
        lab = self.lab
        lab.rec("start", token=token, attempt=attempt)
        try:
            if dur:
                await asyncio.sleep(dur)
        except asyncio.CancelledError:
            lab.rec("interrupted", token=token, attempt=attempt)
            raise
        if attempt <= fails:
            lab.rec("fail", token=token, attempt=attempt)
            raise ValueError("scripted failure")
        lab.rec("end", token=token, attempt=attempt)

    async def do(self, d: Docket, i: int, op: dict, key: str) -> dict:
        lab = self.lab
        rec = {"i": i, "op": op["op"], "key": key, "s": lab.sim.now(), "e": None, "result": None,
               "due": None, "op_case": op}
        self.ops.append(rec)
        if op["op"] == "cancel":
            await d.cancel(key)
        else:
            when = utcnow() + S(op["delay"])
            rec["due"] = rec["s"] + op["delay"]
            submit = d.add if op["op"] == "add" else d.replace
            if op["flavor"] == "limited":
                e = await submit(self.limited, when, key)(i, 0, op["dur"], op["fails"])
            else:
                e = await submit(self.plain, when, key)(i, op["dur"], op["fails"])
            rec["result"] = e.disposition.value
            rec["execution"] = e
        rec["e"] = lab.sim.now()
        return rec

    async def client(self, name: str, script: list[tuple[int, dict]]) -> None:
        """One client process, issuing its operations concurrently at their times."""
        async def one(i, op, d):
            await self.lab.until(op["at"])
            return await self.do(d, i, op, K(self.case, op['key']))

        async with self.lab.docket() as d:
            await asyncio.gather(*(one(i, op, d) for i, op in script))

    async def play(self, script: list[dict], clients: int) -> None:
        await self.lab.wear([K(self.case, k) for k in sorted({o["key"] for o in script})], self.case.get("worn", 0))
        base = self.lab.sim.now()
        script = [{**o, "at": o["at"] + base} for o in script]
        jobs = []
        for c in range(clients):
            mine = [(i, op) for i, op in enumerate(script) if op["client"] == c]
            if mine:
                jobs.append(self.lab.sim.node(f"c{c}").spawn(self.client(f"c{c}", mine)))
        for j in jobs:
            await j

    # -- views ---------------------------------------------------------------
    def token(self, i: int, kind: str) -> list[dict]:
        return self.lab.of(kind, token=i)

    def starts(self, i: int) -> list[float]:
        return [e["t"] for e in self.token(i, "start")]

    def final(self, i: int) -> float | None:
        e = self.token(i, "end")
        return e[-1]["t"] if e else None

    def bodies(self, i: int) -> list[tuple[float, float]]:
        """(start, stop) of every body of this submission."""
        out = []
        open_at = None
        for e in self.lab.events:
            if e.get("token") != i:
                continue
            if e["kind"] == "start":
                open_at = e["t"]
            elif e["kind"] in ("end", "fail", "interrupted") and open_at is not None:
                out.append((open_at, e["t"]))
                open_at = None
        if open_at is not None:
            out.append((open_at, float("inf")))
        return out
