#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the scenarios that exist."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(V + "/harness/*.go"))
have = set(re.findall(r'"(C\d\d)"', src))
sched = {"C01","C02","C04","C05","C07","C08","C09","C15","C16","C17","C19","C21","C22","C23","C24","C26","C27","C28","C29","C32"}
TECH = "stateless model checking of the instrumented implementation: exhaustive enumeration of %s within stated bounds, every execution checked against a reference model"
NOTE = ("The real code of /repo's working tree runs under a controlled scheduler, clock, network and input generator; every execution within the bounds recorded "
        "in the evidence is enumerated (nothing sampled) and compared with a reference model written from the property text. Trusted: the Go compiler, the "
        "instrumenter and the simulated channel/select/sync/time/net operations (sequentially consistent), and the reference model. Not covered: behaviour beyond the bounds.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "check under construction"})
        continue
    what = "operation sequences, inputs and faults"
    if i in sched: what = "thread interleavings (deviation-bounded), operation sequences, inputs and faults"
    if i == "C30": what = "thread interleavings (deviation-bounded) of the -race build; the deciding oracle on each execution is the happens-before race detector, to which the scheduler is invisible"
    checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH % what, "level": "model_checking",
                   "level_note": NOTE + (" healthd is compiled against small stand-ins for its two missing third-party packages (gocraft/web router, braintree/manners server)." if i in ("C24","C25","C26","C27","C28","C30","C32","C33") else "")
                   + (" The commands are compiled against small stand-ins for their missing third-party packages (goterm, cobra, gocraft/web, manners)." if i in ("C29","C31") else "")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the instrumentation is applied at check time to copies through go build -overlay. 'bash replay.sh PROPERTY SCENARIO TIER CHOICES' re-runs one execution; the replay file of a violation says how."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
