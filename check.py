#!/usr/bin/env python3
"""Decide one property: check.py ID [quick|thorough].

Exit 0: the property holds on the analysed source.  Exit 1 with a line
VIOLATION property=ID replay=PATH: it does not.  Exit 2: no verdict.
"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.dont_write_bytecode = True

import program  # noqa: E402
import specs    # noqa: E402
import runner   # noqa: E402
from program import AnalysisError  # noqa: E402


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = specs.SPECS.get(pid)
    if spec is None:
        print("no such property:", pid)
        return 2
    try:
        res = runner.run(pid, spec, tier)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = known_findings(pid)
    bad = []
    for v in res.violations:
        hit = [k for k in known if k[0] == v.key]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][1]))
        else:
            bad.append(v)
    cov = dict(res.coverage)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "other"),
          "coverage": cov, "assumptions": spec.get("assumptions", []) + specs.ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property=%s obligations=%d discharged=%d functions=%d call_sites=%d wall=%.1fs" % (
        pid, cov.get("obligations", 0), cov.get("discharged", 0),
        cov.get("functions_analysed", 0), cov.get("call_sites", 0), time.time() - t0))
    if bad:
        rp = os.path.join(VERIF, "build", "replay", pid + ".txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            for v in bad:
                f.write(v.text() + "\n\n")
        for v in bad[:10]:
            print(v.text(short=True))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


sys.exit(main())
