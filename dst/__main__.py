"""Command line: check, replay, digests, one."""

import argparse
import os
import sys

from dst import env


def main():
    env.reexec_if_needed(sys.argv[1:])
    ap = argparse.ArgumentParser(prog="dst")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    r = sub.add_parser("replay")
    r.add_argument("path")
    r.add_argument("--record", action="store_true")
    d = sub.add_parser("digests")
    d.add_argument("prop")
    d.add_argument("--indices", required=True)
    o = sub.add_parser("one")
    o.add_argument("prop")
    o.add_argument("index", type=int)
    for p in (c, d, o):
        p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--runs", type=int)
    c.add_argument("--workers", type=int)
    a = ap.parse_args()

    from dst import runner

    if a.cmd == "check":
        return runner.check(a.prop, a.tier, a.seed, a.runs, a.workers)
    if a.cmd == "replay":
        return runner.replay(a.path, a.record)
    if a.cmd == "digests":
        indices = [int(i) for i in a.indices.split(",")]
        return runner.digests(a.prop, a.tier, a.seed, indices)
    env.setup()
    import json

    spec = runner.make_spec(a.prop, a.seed, a.tier, a.index)
    print(json.dumps(spec, indent=1))
    res = runner.execute(a.prop, spec, keep_events=True)
    print("\n".join(res.pop("events")))
    print(res.pop("msg"))
    print(res)
    return 0


if __name__ == "__main__":
    sys.exit(main())
