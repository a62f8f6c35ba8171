#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

exit 0: held; exit 1 and a VIOLATION line: broken; exit 2: the check could not decide.
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)

import build  # noqa: E402


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import rules.all as R
    from rules.base import Ctx, Missing
    from engine.flow import Unsupported
    if prop not in R.RULES:
        print("no rule for", prop, file=sys.stderr)
        return 2
    d = key = None
    c = Ctx(prop, d)
    try:
        # what the compiler itself decides comes first: the entry points of the analysis
        # may not compile any more once it is broken
        for r in R.EARLY.get(prop, []):
            r(c)
        d, key = build.dump()
        c.dir = d
        for r in R.RULES[prop]:
            try:
                r(c)
            except Unsupported as e:
                # nothing is proved about code that cannot be followed
                c.ob("every construct can be followed", False, e.where, "the analysis cannot follow: %s" % e)
    except Exception as e:
        if isinstance(e, build.BuildError):
            print("BUILD ERROR", e, file=sys.stderr)
        elif isinstance(e, Missing):
            print("CANNOT DECIDE %s: %s" % (prop, e), file=sys.stderr)
        else:
            traceback.print_exc()
        # what was refuted before stays refuted
        if all(o.ok for o in c.obs):
            return 2
    known = known_findings()
    bad = [o for o in c.obs if not o.ok]
    new = []
    for o in bad:
        k = "%s %s" % (prop, o.name)
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
        else:
            new.append(o)
    files = set()
    nf = 0
    calls = 0
    unm = {}
    for a in c._a.values():
        nf += len(a.fns)
        calls += a.calls
        for u, n in a.unmodelled.items():
            unm[u] = unm.get(u, 0) + n
        for fid in a.fns:
            w = a.P.fns[fid].where().rsplit(":", 1)[0]
            if not w.startswith("/"):
                files.add(w)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join("evidence", prop + ".violations.json")
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": "proof",
            "coverage": {
                "obligations": len(c.obs),
                "discharged": sum(o.ok for o in c.obs),
                "checker_cmd": "python3 check.py " + prop,
                "trusted_base": ["rustc front end (MIR of the type-checked program)", "driver/ (MIR dump)",
                                 "engine/ (value-flow analysis and term normaliser)", "engine/models.py (models of std and wyhash operations)",
                                 "harness/src/spec.rs (reference semantics)"],
                "functions_analysed": nf, "call_sites_analysed": calls, "entry_points": sum(len(a.sums) for a in c._a.values()),
                "repo_files": sorted(files), "opaque_operations": unm, "minimum_counts": c.floors,
                "samples": c.samples, "source_key": key,
            },
            "wall_s": round(time.time() - t0, 3), "violations": len(new),
        }, f, indent=1)
    if new:
        with open(os.path.join(HERE, replay), "w") as f:
            json.dump([{"obligation": o.name, "where": o.where, "detail": o.detail} for o in new], f, indent=1)
        for o in new:
            print("%s: %s at %s: %s" % (prop, o.name, o.where, o.detail))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("%s: %d obligations discharged, %d functions analysed" % (prop, sum(o.ok for o in c.obs), nf))
    return 0


def known_findings():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                # known: property=<id> key="<obligation>" <what fails>
                body = line[len("known:"):].strip()
                pid = body.split()[0].split("=", 1)[1]
                k = body.split('key="', 1)[1].split('"', 1)[0]
                out["%s %s" % (pid, k)] = body.split('"', 2)[2].strip()
    return out


if __name__ == "__main__":
    sys.exit(main())
