"""P11: perpetual tasks go on, once at a time, at the interval asked for, until told to stop; automatic ones start themselves."""
from __future__ import annotations

from hypothesis import strategies as st

from docket import Perpetual, Retry
from vlib.engine import Part, Seen
from vlib.gens import profiles, seeds, times, units
from vlib.lab import *

turn = st.fixed_dictionaries({
    "dur": st.sampled_from([0, 0, 0.2, 0.9, 3]),
    "fail": st.sampled_from([False, False, True]),
    "act": st.sampled_from(["none", "none", "none", "after", "at", "args", "kwargs", "all kwargs", "after+args"]),
    "s": st.sampled_from([0, 0.4, 2.5, -3]),
})


@st.composite
def cases(draw, tier):
    return {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(profiles), "workers": draw(st.integers(1, 3)),
        "ttl": draw(st.sampled_from([900, 0])),
        "chains": draw(st.lists(st.fixed_dictionaries({
            "every": st.sampled_from([0, 0.3, 1, 2.5]),
            "retry": st.sampled_from([0, 0, 0, 2, 3]),
            "turns": st.lists(turn, min_size=1, max_size=8 if tier == "thorough" else 6),
            "stop_fails": st.booleans(), "alias": st.sampled_from(["", "", "something else"]),
        }), min_size=1, max_size=2)),
    }


def run(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim, execution_ttl=S(case["ttl"]))
        count: dict[int, int] = {}

        async def turn_of(i, perpetual, a, b, attempt):
            c = case["chains"][i]
            n = count.get(i, 0)
            count[i] = n + 1
            last = n >= len(c["turns"])
            t = {"dur": 0.2, "fail": c["stop_fails"], "act": "cancel", "s": 0} if last else c["turns"][n]
            rec = {"i": i, "n": n, "a": a, "b": b, "attempt": attempt, "s": sim.now(), "when": None, "args": None}
            lab.events.append({"kind": "turn", "rec": rec})
            await asyncio.sleep(t["dur"])
            if t["act"].startswith("after"):
                perpetual.after(S(t["s"]))
                rec["when"] = sim.now() + t["s"]
            if t["act"] == "at":
                perpetual.at(utcnow() + S(t["s"]))
                rec["when"] = sim.now() + t["s"]
            if t["act"].endswith("args"):
                if t["act"] == "kwargs":
                    perpetual.perpetuate(i, b=n, a=-n)
                    rec["args"] = (-n, n)
                elif t["act"] == "all kwargs":
                    perpetual.perpetuate(a=n, i=i)
                    rec["args"] = (n, "dflt")
                else:
                    perpetual.perpetuate(i, n)
                    rec["args"] = (n, "dflt")
            if t["act"] == "cancel":
                perpetual.cancel()
            rec["e"] = sim.now()
            rec["failed"] = t["fail"]
            rec["stopped"] = last
            if t["fail"]:
                raise ValueError("scripted")

        def make(i, c):
            if c["retry"]:
                async def chain(i: int, a: int, b: object = "dflt", perpetual: Perpetual = Perpetual(every=S(c["every"])),
                                retry: Retry = Retry(attempts=c["retry"], delay=S(0.5))):
                    await turn_of(i, perpetual, a, b, retry.attempt)
            else:
                async def chain(i: int, a: int, b: object = "dflt", perpetual: Perpetual = Perpetual(every=S(c["every"]))):
                    await turn_of(i, perpetual, a, b, 1)
            chain.__name__ = f"chain{i}"
            return chain

        fns = [make(i, c) for i, c in enumerate(case["chains"])]
        # workers may know a function by another name
        alias = [f"{c['alias']} {i}" if c["alias"] else "" for i, c in enumerate(case["chains"])]
        lab.tasks = [(fn, [n]) if n else fn for fn, n in zip(fns, alias)]
        ws = [lab.start_worker(f"w{i}") for i in range(case["workers"])]
        async with lab.docket() as d:
            for i, fn in enumerate(fns):
                await d.add(alias[i] or fn, key=K(case, i))(i, 100)

            def turns(i):
                return [e["rec"] for e in lab.of("turn") if e["rec"]["i"] == i]

            def over(i):
                ts = turns(i)
                c = case["chains"][i]
                return ts and ts[-1].get("stopped") and (not ts[-1]["failed"] or ts[-1]["attempt"] >= max(c["retry"], 1))

            await lab.quiesce(lambda: all(over(i) for i in range(len(fns))), limit=150 + 30 * slack)
            await asyncio.sleep(3 + 2 * slack)
            for i, c in enumerate(case["chains"]):
                ts = turns(i)
                where = f"chain {i} (every {c['every']} s)"
                need(over(i), f"{where}: came to a halt after {len(ts)} turns", "halted")
                args = (100, "dflt")
                for p, q in zip(ts, ts[1:]):
                    need(p["e"] <= q["s"], f"{where}: turns {p['n']} and {q['n']} overlapped", "overlap")
                    retried = p["failed"] and p["attempt"] < max(c["retry"], 1)
                    if retried:
                        need(q["attempt"] == p["attempt"] + 1, f"{where}: not retried after turn {p['n']}", "retry")
                        lo = hi = p["e"] + 0.5
                    else:
                        need(not p["stopped"], f"{where}: ran again after turn {p['n']}, which told it to stop", "not-stopped")
                        need(q["attempt"] == 1, f"{where}: turn {q['n']} is attempt {q['attempt']}", "attempt")
                        if p["args"] is not None:
                            args = p["args"]
                            seen.hit("perpetuated")
                        if p["when"] is not None:
                            lo = hi = max(p["when"], p["e"])
                            seen.hit("override")
                        else:
                            lo, hi = max(p["e"], p["s"] + c["every"] - slack), max(p["e"], p["s"] + c["every"])
                    need((q["a"], q["b"]) == args, f"{where}: turn {q['n']} got {(q['a'], q['b'])}, not {args}", "arguments")
                    need(q["s"] >= lo - 0.002, f"{where}: turn {q['n']} at t={q['s']:.3f}, due {lo:.3f}", "early")
                    need(q["s"] <= hi + 2 * slack + 1.1, f"{where}: turn {q['n']} at t={q['s']:.3f}, due {hi:.3f}", "late")
                seen.hit("turns", len(ts))
                st_ = lab.stored_state(K(case, i))
                if case["ttl"]:
                    need(st_ == ("failed" if c["stop_fails"] else "completed"), f"{where}: ended as {st_}", "final")
                    seen.hit(f"end-{st_}")
                if len(ts) > 2:
                    seen.nontrivial = True
                # the key is free again
            need(lab.backlog() == (0, 0), f"left over: {lab.backlog()}", "leftover")
            for i, fn in enumerate(fns):
                ex = await d.add(fn, when=utcnow() + S(1000), key=K(case, i))(i, 1)
                need(ex.disposition.value == "scheduled", f"the key of the stopped chain {i} is not free", "key")
        need(not lab.worker_ends, f"a worker ended by itself: {lab.worker_ends}", "worker-died")
        await close_all(*ws)

    simulate(case, main)


# -- automatic chains ---------------------------------------------------------


@st.composite
def auto_cases(draw, tier):
    workers = draw(st.integers(1, 3))
    return {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(st.sampled_from(["zero", "lan", "wan"])),
        "every": draw(st.sampled_from([2, 10, 25])), "dur": draw(st.sampled_from([0, 0.5, 4])),
        "fail": draw(st.booleans()), "names": draw(st.sampled_from([["beat"], ["beat"], ["pulse"], ["pulse", "other"], ["beat", "pulse"]])),
        "workers": [{"at": draw(times(5, 0.01)), "restart": draw(st.sampled_from([0.5, 5, 20]))} for _ in range(workers)],
        "old": draw(st.lists(times(60, 0.1), max_size=1)),
        "kills": draw(st.lists(st.fixed_dictionaries({"worker": st.integers(0, workers - 1), "at": times(80, 0.05)}), max_size=3)),
        "cancels": draw(st.lists(times(90, 0.1), max_size=2)),
        "clears": draw(st.lists(times(90, 0.1), max_size=1)),
    }


RESEED = 60.0


def run_auto(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]
    redelivery = 6

    async def main(sim):
        lab = Lab(sim)

        async def beat(perpetual: Perpetual = Perpetual(every=S(case["every"]), automatic=True)):
            lab.rec("start")
            await asyncio.sleep(case["dur"])
            lab.rec("end")
            if case["fail"]:
                raise ValueError("scripted")

        lab.tasks = [(beat, case["names"])]
        ws = []

        async def up(i, w):
            await lab.until(w["at"])
            ws.append(lab.start_worker(f"w{i}", restart_after=w["restart"], redelivery_timeout=S(redelivery),
                                       reconnection_delay=S(1)))

        async def killer(k):
            await lab.until(6 + k["at"])
            w = [x for x in ws if x.name == f"w{k['worker']}"][0]
            w.node.kill()
            seen.hit("kill")

        await asyncio.gather(*(up(i, w) for i, w in enumerate(case["workers"])))
        jobs = [asyncio.ensure_future(killer(k)) for k in case["kills"]]
        old = None
        async with lab.docket() as d:
            async def at(t, what):
                await lab.until(6 + t)
                await what()

            async def do_cancel():
                await d.cancel("beat")
                lab.rec("cancelled")
                seen.hit("cancel")

            async def do_clear():
                await d.clear()
                seen.hit("clear")

            async def do_old():
                nonlocal old
                old = lab.start_worker("old", docket_kw={"tasks": []}, redelivery_timeout=S(redelivery))
                await asyncio.sleep(12)
                await old.stop()
                seen.hit("old-worker")

            jobs += [asyncio.ensure_future(at(t, do_cancel)) for t in case["cancels"]]
            jobs += [asyncio.ensure_future(at(t, do_clear)) for t in case["clears"]]
            jobs += [asyncio.ensure_future(at(t, do_old)) for t in case["old"]]
            await lab.until(6 + 100 + RESEED + 60)
            for j in jobs:
                await j
        starts = [e["t"] for e in lab.of("start")]
        need(starts, "the automatic task never started", "never")
        disturbed = bool(case["kills"] or case["old"] or case["cancels"] or case["clears"])
        live = 0
        first_up = min(w["at"] for w in case["workers"])
        need(starts[0] <= first_up + 2 * slack + 2.5 or disturbed, f"first run at t={starts[0]:.3f}", "first")
        if not disturbed:
            for e in lab.events:
                live += {"start": 1, "end": -1}.get(e["kind"], 0)
                need(live <= 1, f"two runs of the chain at t={e['t']:.3f}", "two-runs")
            for a, b in zip(starts, starts[1:]):
                due = max(a + case["every"], a + case["dur"])
                need(due - slack <= b <= due + 2 * slack + 1.1, f"runs at {a:.3f} and {b:.3f}, every {case['every']} s", "interval")
        # down time: nobody to run anything
        worst = case["every"] + case["dur"] + RESEED + redelivery + 25 + 4 * slack + 5
        hits = [6 + x for x in case["cancels"] + case["clears"]] + [6 + x + 12.5 for x in case["old"]] \
            + [6 + k["at"] for k in case["kills"]]
        for a, b in zip(starts, starts[1:] + [sim.now()]):
            last = max([a] + [h for h in hits if a < h < b])  # what was reseeded may have been hit again
            need(b - last <= worst, f"no run between t={a:.3f} and t={b:.3f} (every {case['every']} s)", "severed")
        late = [t for t in starts if t > 6 + 100 + RESEED]
        # in the end, undisturbed for a minute, it beats regularly again and alone
        period = max(case["every"], case["dur"])
        for a, b in zip(late, late[1:]):
            need(period - slack <= b - a <= period + 2 * slack + 1.1,
                 f"after everything calmed down, runs at {a:.3f} and {b:.3f}, every {case['every']} s", "interval")
        need(late, "it never came back", "severed")
        seen.nontrivial = disturbed
        seen.hit("beats", len(starts))
        need(all(w.ended_silently == 0 for w in ws), "a worker stopped by itself", "worker-died")
        await close_all(*ws)

    simulate(case, main)


# -- a chain replaced from outside ---------------------------------------------


@st.composite
def replaced_cases(draw, tier):
    return {
        "seed": draw(seeds), "unit": draw(units), "lat": draw(profiles), "workers": draw(st.integers(1, 2)),
        "every": draw(st.sampled_from([0.3, 0.5, 1])), "dur": draw(st.sampled_from([0, 0.05, 0.3, 1])),
        "replaces": draw(st.lists(st.fixed_dictionaries({
            "at": st.one_of(times(6, 0.01), times(6, 0.001)), "delay": st.sampled_from([0, 0, 0.5, 2])}),
            min_size=1, max_size=4)),
    }


def run_replaced(case, seen: Seen) -> None:
    slack = SLACK[case["lat"]]

    async def main(sim):
        lab = Lab(sim)

        async def chain(token: int, perpetual: Perpetual = Perpetual(every=S(case["every"]))):
            lab.rec("start", token=token)
            await asyncio.sleep(case["dur"])
            lab.rec("end", token=token)

        lab.tasks = [chain]
        ws = [lab.start_worker(f"w{i}") for i in range(case["workers"])]
        calls = []

        async def client(n, r):
            async with lab.docket() as d:
                await lab.until(2 + r["at"])
                s = sim.now()
                ex = await d.replace(chain, utcnow() + S(r["delay"]), K(case, ""))(n)
                need(ex.disposition.value == "scheduled", "replace refused", "refused")
                calls.append((s, sim.now(), n, r["delay"]))

        async with lab.docket() as d:
            await d.add(chain, key=K(case, ""))(-1)
            calls.append((0, sim.now(), -1, 0))
            jobs = [sim.node(f"c{n}").spawn(client(n, r)) for n, r in enumerate(case["replaces"])]
            for j in jobs:
                await j
            end = sim.now()
            last = [n for s, e, n, dl in calls if not any(s2 > e for s2, *_ in calls)]
            await asyncio.sleep(2 + 3 * slack)
            t = sim.now()
            await asyncio.sleep(max(case["every"], case["dur"]) * 2 + 2 * slack + 2)
            for s, e, n, _ in calls:
                for s2, e2, n2, _ in calls:
                    if s2 > e:
                        for x in lab.of("start", token=n):
                            need(x["t"] <= e2 + slack, f"the chain of schedule {n} ran at t={x['t']:.3f} though schedule {n2} "
                                 f"replaced it by t={e2:.3f}", "stale-start")
            now = {x["token"] for x in lab.of("start") if x["t"] > t}
            need(len(now) == 1 and now <= set(last), f"schedules running in the end: {sorted(now)}, the last replacement was {last}",
                 "last-wins")
            for s, e, n, dl in calls[1:]:
                xs = lab.of("start", token=n)
                need(not xs or xs[0]["t"] >= s + dl - 0.002, f"schedule {n} started early", "early")
                if last == [n] and n != -1:
                    need(xs and xs[0]["t"] <= e + dl + case["dur"] + 2 * slack + 1.2, f"schedule {n} started late", "late")
            ends = [x["t"] for x in lab.of("end")]
            starts = [x["t"] for x in lab.of("start")]
            if any(a < s < b for a, b in zip(starts, ends) for s, *_ in calls):
                seen.hit("replaced-while-running")
            seen.nontrivial = True
        await close_all(*ws)

    simulate(case, main)


PARTS = [
    Part("replaced", replaced_cases, run_replaced, quick=500, thorough=40_000, rule="the running chain was replaced"),
    Part("chains", cases, run, quick=600, thorough=40_000, rule="a chain went round more than twice"),
    Part("automatic", auto_cases, run_auto, quick=80, thorough=4_000,
         rule="a worker was killed, an old worker swallowed runs, or the chain was cancelled or cleared"),
]
