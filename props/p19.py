"""P19: everyone ends up with the same strikes, those issued, whenever they joined and whatever was cut off."""
from __future__ import annotations

import contextlib

import redis.exceptions
from hypothesis import strategies as st

from docket.strikelist import StrikeList
from vlib.engine import Part, Seen
from vlib.gens import seeds, times
from vlib.lab import *

RULES = 3


def unknown():
    raise ModuleNotFoundError("No module named 'tomorrow'")


class Unreadable:
    """Of a class that only its issuer knows."""

    def __reduce__(self):
        return unknown, ()


@st.composite
def cases(draw, tier):
    n = draw(st.integers(2, 4))
    big = tier == "thorough"
    burst = draw(st.sampled_from([10, 10, 1, 0.2]))
    return {
        "seed": draw(seeds), "lat": draw(st.sampled_from(["lan", "wan", "spiky", "spiky"])), "burst": burst,
        "members": [{"at": draw(st.sampled_from([0, 0, 0, 3, 9])), "kind": draw(st.sampled_from(["docket", "docket", "list"])),
                     "outages": draw(st.lists(st.fixed_dictionaries({"at": times(14, 0.1), "len": st.sampled_from([0.3, 2, 6])}),
                                              max_size=1)) if i else [],
                     "loss": draw(st.lists(st.fixed_dictionaries({"cmd": st.sampled_from(["xread", "xadd"]), "nth": st.integers(1, 6),
                                                                  "kind": st.sampled_from(["drop_request", "drop_reply"])}), max_size=1)) if i else []}
                    for i in range(n)],
        "before": draw(st.sampled_from([0, 0, 3, 150])),
        "ops": sorted(draw(st.lists(st.fixed_dictionaries({
            "at": times(burst, 0.01), "who": st.integers(0, n - 1), "rule": st.integers(0, RULES - 1), "strike": st.booleans(),
            "odd": st.sampled_from([False] * 9 + [True])}),
            min_size=1, max_size=24 if big else 12)), key=lambda o: o["at"]),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)
        views: list[list] = [[] for _ in case["members"]]  # (time, frozenset of rules in force)
        members: list = [None] * len(case["members"])
        loaded: list = [None] * len(case["members"])
        returned: list = []  # (issued, returned or None, member, rule, strike)
        stop = asyncio.Event()
        base = 5.0

        async def charge(customer): ...

        def view(m):
            sl = m if isinstance(m, StrikeList) else m.strike_list
            return frozenset(r for r in range(RULES) if sl.is_stricken({"customer": r}))

        async def member(i, spec):
            await lab.until(base + spec["at"])
            opened = sim.now()
            cm = lab.docket([charge]) if spec["kind"] == "docket" else StrikeList(url=URLS[sim.wire], name="d")
            async with cm as m:
                await m.wait_for_strikes_loaded()
                loaded[i] = (opened, sim.now(), view(m))
                members[i] = m
                while not stop.is_set():
                    views[i].append((sim.now(), view(m)))
                    await asyncio.sleep(0.1)

        async def history():
            async with lab.docket([charge]) as d:
                for k in range(case["before"]):
                    await d.strike(None, "customer", "==", k % RULES)
                    if k % 3 or k % 2:
                        await d.restore(None, "customer", "==", k % RULES)

        await sim.node("before", "zero").spawn(history())
        await lab.until(base)
        nodes = []
        for i, spec in enumerate(case["members"]):
            node = sim.node(f"m{i}")
            node.outage = [(base + o["at"], base + o["at"] + o["len"]) for o in spec["outages"]]
            node.faults = [{**f, "from": base + spec["at"] + 2} for f in spec["loss"]]
            nodes.append(node)
        running = [n.spawn(member(i, s)) for i, (n, s) in enumerate(zip(nodes, case["members"]))]

        async def issue(o):
            await lab.until(base + 4 + o["at"])
            m = members[o["who"]]
            if m is None:
                return
            if o["odd"]:
                with contextlib.suppress(redis.exceptions.ConnectionError):
                    await m.strike(None, "customer", "==", Unreadable())
                seen.hit("unreadable")
                return
            rec = [sim.now(), None, o["who"], o["rule"], o["strike"]]
            returned.append(rec)
            try:
                await (m.strike if o["strike"] else m.restore)(None, "customer", "==", o["rule"])
            except redis.exceptions.ConnectionError:
                seen.hit("failed-call")
                return
            rec[1] = sim.now()
            # one's own rule is in force at once, unless someone else meddles with it
            others = [r for r in returned if r is not rec and r[3] == o["rule"] and (r[1] is None or r[1] >= rec[0] - 2 * slack)]
            if not others:
                need((o["rule"] in view(m)) == o["strike"], f"member {o['who']} {'struck' if o['strike'] else 'restored'} rule {o['rule']}, "
                     f"yet its own view is {sorted(view(m))}", "own")
                seen.hit("own")

        jobs = [nodes[o["who"]].spawn(issue(o)) for o in case["ops"]]
        for j in jobs:
            await j
        await lab.until(base + 4 + 14 + 8 + 70 + 4 * slack)
        # the true history, as stored
        from docket.strikelist import StrikeInstruction
        entries = []
        for eid, msg in sim.server.q("xrange", "d:strikes"):
            if b"unknown" in msg[b"value"]:
                continue
            ins = StrikeInstruction.from_message({k: v for k, v in msg.items()})
            ms = float(bytes(eid).decode().split("-")[0]) / 1000 - sim.epoch_ns / 1e9
            entries.append((ms, ins.value, ins.direction == "strike"))
        completed = [r for r in returned if r[1] is not None]
        need(len(entries) >= len(completed), f"{len(completed)} calls returned, {len(entries)} are on record", "unrecorded")

        def fold(es):
            s = set()
            for _, r, strike in es:
                (s.add if strike else s.discard)(r)
            return frozenset(s)

        truth = fold(entries)
        for i, m in enumerate(members):
            need(m is not None, f"member {i} never loaded the strikes", "never-loaded")
            need(view(m) == truth, f"member {i} ({case['members'][i]['kind']}) holds {sorted(view(m))}, the strikes issued make {sorted(truth)}: "
                 f"{[(round(a, 3), r, s) for a, r, s in entries][-12:]}", "diverged")
            opened, done, got = loaded[i]
            for r in range(RULES):
                mine = [e for e in entries if e[1] == r]
                old = [e for e in mine if e[0] < opened - 0.01]
                if len(old) == len([e for e in mine if e[0] <= done + 0.01]) and old:
                    need((r in got) == old[-1][2], f"member {i} had loaded the strikes, but rule {r} was {'not ' * old[-1][2]}in force", "loaded")
            # in between: nothing but what some recent past held (with its own calls already applied)
            out = [(o[0] - 1, o[1] + 4 * slack + 2) for o in nodes[i].outage]
            lossy = bool(nodes[i].fired)
            for t, v in views[i]:
                if any(a <= t <= b for a, b in out) or lossy:
                    continue
                for r in range(RULES):
                    recent = [e for e in entries if e[1] == r and e[0] <= t + 0.01]
                    cut = t - 2 * slack - 0.1
                    ok = {e[2] for e in recent if e[0] >= cut}
                    past = [e for e in recent if e[0] < cut]
                    ok.add(past[-1][2] if past else False)
                    need((r in v) in ok, f"member {i} at t={t:.2f}: rule {r} {'' if r in v else 'not '}in force; recent entries "
                         f"{[(round(a, 2), s) for a, _, s in recent][-4:]}", "stale")
        seen.hit("entries", len(entries))
        seen.nontrivial = len({e[1] for e in entries}) > 0 and len(completed) > 1
        stop.set()
        for r in running:
            await r

    simulate(case, main)


PARTS = [Part("views", cases, run, quick=500, thorough=30_000, rule="two or more rules were changed while others watched")]
