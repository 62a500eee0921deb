#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the plans.
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vlib")
import plans
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {
 "fsim": "trace and end-state monitors over the real daemon running on a simulated btrfs",
 "mon": "reference-model monitor over randomised concurrent histories of the real library code",
}
checks = []; na = []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        kinds = {r[0] for r in pl["runs"]}; var = sorted({r[2] for r in pl["runs"]})
        tech = " and ".join(T[k] for k in sorted(kinds))
        if "asan" in var: tech += ", address and undefined-behaviour sanitizers"
        if "tsan" in var: tech += ", thread sanitizer"
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "technique": pl.get("technique", tech), "level": pl.get("level", "exploration"),
            "level_note": pl.get("note", "Held on the executions listed in the evidence file: " + "; ".join("%s x%d%s" % (r[1], r[4], "" if r[2] == "plain" else " (%s)" % r[2]) for r in pl["runs"]) + " per quick run, %d times as many per thorough run." % plans.THOROUGH)})
    else:
        na.append({"property": i, "reason": plans.NOT_APPLICABLE.get(i, "no check yet")})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
m = {"version": 1, "setup_cmd": "python3 vlib/setup.py",
     "hooks": {"guard": "BEES_VERIF", "enable": "the checks compile /repo's sources themselves with -DBEES_VERIF (vlib/build.py); intervals and limits are then taken from environment variables BEES_VERIF_<NAME>",
               "source_commits": [l.split()[0] for l in hooks if " hooks:" in l]},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. 'check PROPERTY [--tier T] [--seed N]' runs a check, 'check --replay FILE' repeats a reported violation. Known and repaired findings: KNOWN_FINDINGS.json."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
