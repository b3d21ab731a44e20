"""Property runner: Hypothesis generation and shrinking, sharding, evidence, replay."""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Violation(Exception):
    """The code under test broke the property on this case."""

    def __init__(self, message: str, signature: str = ""):
        super().__init__(message)
        self.message = message
        self.signature = signature or re.sub(r"[^a-z]+", "-", message.split(":")[0].lower())[:60].strip("-")


class StopSearch(KeyboardInterrupt):
    pass


class CaseTimeout(KeyboardInterrupt):
    """asyncio lets a KeyboardInterrupt through, and the code under test does not catch it."""


@dataclass
class Seen:
    """What one case exercised: filled by the property's run function."""

    nontrivial: bool = False
    labels: dict[str, int] = field(default_factory=dict)

    def hit(self, label: str, n: int = 1) -> None:
        self.labels[label] = self.labels.get(label, 0) + n


@dataclass
class Part:
    name: str
    strategy: Callable[[str], Any]  # tier -> SearchStrategy of JSON-able cases
    run: Callable[[Any, Seen], None]
    quick: int
    thorough: int
    rule: str
    corpus: list[Any] = field(default_factory=list)


def load(pid: str):
    sys.path.insert(0, ROOT)
    return importlib.import_module(f"props.{pid.lower()}")


def known_signatures(pid: str) -> dict[str, str]:
    out: dict[str, str] = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(rf"known: property={pid} signature=(\S+) (.*)", line.strip())
            if m:
                out[m.group(1)] = m.group(2)
    return out


def canon(case: Any) -> str:
    return json.dumps(case, sort_keys=True, default=repr)


CASE_CPU_S = 45


def guarded(part: Part, case: Any, seen: Seen) -> None:
    """Run one case; an unexpected exception or an endless loop is a violation too."""
    from .lab import set_unit
    from .sim import HarnessError

    set_unit(case)

    def alarm(*_: Any) -> None:
        raise CaseTimeout

    old = signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S, 5)
    try:
        part.run(case, seen)
    except (Violation, HarnessError):
        raise
    except CaseTimeout:
        raise Violation(f"one case kept the CPU busy for {CASE_CPU_S} s", "cpu-hang") from None
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-6:]
        raise Violation(f"unexpected {type(e).__name__}: {e} (via {' > '.join(inner)})",
                        f"unexpected-{type(e).__name__}") from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


# ---------------------------------------------------------------------------
# one shard (runs inside the project's interpreter, clock shim preloaded)
# ---------------------------------------------------------------------------


def run_shard(pid: str, tier: str, seed: int, shard: int, shards: int, out: str, stop_file: str,
              soft_s: float) -> None:
    from .boot import setup_paths

    setup_paths()
    import gc

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from .sim import HarnessError, real_monotonic

    mod = load(pid)
    known = known_signatures(pid)
    started = real_monotonic()
    res: dict[str, Any] = {"parts": {}, "violation": None, "known_hit": {}, "error": None}

    def dump() -> None:
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f, default=repr)
        os.replace(tmp, out)

    only = os.environ.get("VERIF_PARTS", "").split()
    for index, part in enumerate(mod.PARTS):
        if only and part.name not in only:
            continue
        total = part.quick if tier == "quick" else part.thorough
        n = total // shards + (1 if shard < total % shards else 0)
        pr: dict[str, Any] = {"evaluations": 0, "hashes": [], "labels": {}, "samples": [], "truncated": False}
        res["parts"][part.name] = pr
        hashes: set[str] = set()
        state: dict[str, Any] = {"best": None, "first": None, "last": None, "shrinks": 0}

        def one(case: Any) -> None:
            now = real_monotonic()
            if state["first"] is not None and now - state["first"] > 45:
                raise StopSearch
            if state["first"] is None and (now - started > soft_s or os.path.exists(stop_file)):
                pr["truncated"] = True
                raise StopSearch
            text = canon(case)
            seen = Seen()
            pr["evaluations"] += 1
            if pr["evaluations"] % 50 == 0:
                gc.collect()
            try:
                guarded(part, case, seen)
            except Violation as v:
                if v.signature in known:
                    res["known_hit"][v.signature] = res["known_hit"].get(v.signature, 0) + 1
                    return
                rec = {"part": part.name, "case": case, "message": v.message, "signature": v.signature}
                if state["first"] is None:
                    state["first"] = now
                state["last"] = rec
                if state["best"] is None or len(text) < len(canon(state["best"]["case"])):
                    state["best"] = rec
                raise
            finally:
                for k, c in seen.labels.items():
                    pr["labels"][k] = pr["labels"].get(k, 0) + c
                if seen.nontrivial:
                    h = hashlib.sha1(text.encode()).hexdigest()[:16]
                    if h not in hashes:
                        hashes.add(h)
                        if len(pr["samples"]) < 2 and len(text) < 3000:
                            pr["samples"].append(json.loads(text))

        try:
            if shard == 0:
                for case in part.corpus:
                    one(case)
            test = given(part.strategy(tier))(one)
            test = settings(
                max_examples=max(n, 1), database=None, deadline=None,
                suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                phases=[Phase.generate, Phase.shrink], print_blob=False, verbosity=hypothesis.Verbosity.quiet,
            )(test)
            test = hypothesis.seed(seed * 1_000_003 + shard * 1009 + index)(test)
            if n > 0:
                test()
        except StopSearch:
            pass
        except Violation:
            pass
        except BaseException as e:  # noqa: BLE001
            if state["first"] is None or isinstance(e, HarnessError):
                res["error"] = f"{part.name}: " + "".join(traceback.format_exception(e))[-6000:]
        pr["hashes"] = sorted(hashes)
        if state["first"] is not None and res["error"] is None:
            final = state["last"]
            if len(canon(final["case"])) > len(canon(state["best"]["case"])):
                final = state["best"]
            res["violation"] = final
            break
        if res["error"]:
            break
    dump()


# ---------------------------------------------------------------------------
# the parent
# ---------------------------------------------------------------------------


def spawn(pid: str, args: list[str]) -> subprocess.Popen:
    from . import boot

    shim = boot.build_shim()
    return subprocess.Popen(
        [boot.VENV_PY, "-X", "faulthandler", os.path.join(ROOT, "run.py"), pid, *args],
        env=boot.child_env(shim), cwd=ROOT, stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )


def run_parent(pid: str, tier: str, seed: int) -> int:
    t0 = time.time()
    shards = int(os.environ.get("VERIF_SHARDS", "8"))
    soft = float(os.environ.get("VERIF_SOFT_S", "300" if tier == "quick" else "3000"))
    hard = 800 if tier == "quick" else 4 * 3600
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        stop_file = os.path.join(tmp, "stop")
        procs = []
        for s in range(shards):
            out = os.path.join(tmp, f"{s}.json")
            procs.append((s, out, spawn(pid, ["--shard", f"{s}/{shards}", "--tier", tier, "--seed", str(seed),
                                              "--out", out, "--stop", stop_file, "--soft", str(soft)])))
        results, errors = [], []
        pending = list(procs)
        while pending:
            for item in list(pending):
                s, out, p = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                so, se = p.communicate()
                if os.path.exists(out):
                    r = json.load(open(out))
                    results.append(r)
                    if r["violation"]:
                        open(stop_file, "w").close()
                    if r["error"]:
                        errors.append(f"shard {s}: {r['error']}")
                else:
                    errors.append(f"shard {s}: exit {p.returncode}\n{so[-2000:]}\n{se[-4000:]}")
            if time.time() - t0 > hard:
                for _, _, p in pending:
                    p.kill()
                errors.append("time limit")
                break
            time.sleep(0.02)
    return report(pid, tier, seed, results, errors, time.time() - t0)


def report(pid: str, tier: str, seed: int, results: list[dict], errors: list[str], wall: float) -> int:
    sys.path.insert(0, ROOT)
    meta = json.load(open(os.path.join(ROOT, "checks.json"))).get(pid) or {"level": "exploration", "rule": "in development"}
    evaluations, distinct, labels, samples, parts, truncated = 0, set(), {}, [], {}, False
    known_hit: dict[str, int] = {}
    for r in results:
        for k, c in r["known_hit"].items():
            known_hit[k] = known_hit.get(k, 0) + c
        for name, pr in r["parts"].items():
            evaluations += pr["evaluations"]
            truncated |= pr["truncated"]
            q = parts.setdefault(name, {"evaluations": 0, "distinct_nontrivial": set(), "labels": {}})
            q["evaluations"] += pr["evaluations"]
            for h in pr["hashes"]:
                distinct.add((name, h))
                q["distinct_nontrivial"].add(h)
            for k, c in pr["labels"].items():
                q["labels"][k] = q["labels"].get(k, 0) + c
            if pr["samples"] and sum(1 for s in samples if s["part"] == name) < 2:
                samples.append({"part": name, "case": pr["samples"][0]})
    for q in parts.values():
        q["distinct_nontrivial"] = len(q["distinct_nontrivial"])
    viols = [r["violation"] for r in results if r["violation"]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(distinct),
            "rule": meta["rule"], "samples": samples, "parts": parts,
            "stopped_early_by_time": truncated, "known_findings_hit": known_hit,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    for sig, what in known_signatures(pid).items():
        print(f"KNOWN-FINDING: property={pid} {what}")
    if viols:
        viols.sort(key=lambda v: len(canon(v["case"])))
        v = viols[0]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        h = hashlib.sha1(canon(v["case"]).encode()).hexdigest()[:10]
        path = os.path.join(ROOT, "replays", f"{pid}-{v['part']}-{h}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=repr)
        print(f"[{pid}/{v['part']}] {v['message']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print(f"[{pid}] the check could not give an answer:", file=sys.stderr)
        for e in errors[:3]:
            print(e, file=sys.stderr)
        return 2
    print(f"{pid}: held on {evaluations} cases ({len(distinct)} distinct non-trivial) in {wall:.1f}s")
    for name, q in parts.items():
        print(f"  {name}: {q['evaluations']} cases, {q['distinct_nontrivial']} non-trivial; "
              + ", ".join(f"{k}={c}" for k, c in sorted(q["labels"].items())))
    return 0


def run_replay(pid: str, path: str) -> int:
    from .boot import setup_paths

    setup_paths()
    mod = load(pid)
    rec = json.load(open(path))
    part = next(p for p in mod.PARTS if p.name == rec["part"])
    try:
        guarded(part, rec["case"], Seen())
    except Violation as v:
        print(v.message)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("the replayed case holds")
    return 0
