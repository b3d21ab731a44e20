#!/usr/bin/env python3
"""python3 run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import engine  # noqa: E402


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--stop")
    ap.add_argument("--soft", type=float, default=300)
    ap.add_argument("--inner", action="store_true")
    a = ap.parse_args()
    if a.shard:
        s, n = a.shard.split("/")
        engine.run_shard(a.property, a.tier, a.seed, int(s), int(n), a.out, a.stop, a.soft)
        return 0
    if a.replay:
        if a.inner:
            return engine.run_replay(a.property, a.replay)
        p = engine.spawn(a.property, ["--replay", os.path.abspath(a.replay), "--inner"])
        out, err = p.communicate()
        sys.stdout.write(out)
        sys.stderr.write(err)
        return p.returncode
    return engine.run_parent(a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
