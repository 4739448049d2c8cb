"""Rewrites MANIFEST.json from properties.jsonl and the tables below (run by hand)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "C01": ("seeded simulation of stage sets and set/hash orders against a reference resolver",
         "Samples sets of up to 8 stages and every order the simulator's hashes give; sees only what its stages' provenance shows."),
 "C02": ("seeded simulation of registration, set and hash orders; outcomes of one stage set compared",
         "Samples 3-6 orders per stage set; stage bodies are deterministic synthetic code."),
 "C03": ("seeded histories of runner operations checked against a provenance reference model",
         "Samples histories of up to about 40 operations on up to two runners; one caller thread."),
 "C04": ("seeded histories with exceptions and interrupts injected at stage bodies and library lines",
         "Interrupts land at line boundaries of the library's own code; after a fault either state (applied, not applied) is accepted."),
 "C05": ("seeded histories over stages that change their inputs in place, with faults",
         "Stages change their inputs, not the outputs they have already returned."),
 "C06": ("seeded InstanceSpace life histories with faults against a latest-build reference model",
         "Stage bodies are synthetic; one caller thread."),
}
import importlib.util
p = os.path.join(here, "tools/more.json")
if os.path.exists(p):
    T.update({k: tuple(v) for k, v in json.load(open(p)).items()})
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
have = [q["id"] for q in props]
checks = [{"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i}",
           "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation: " + T[i][0],
           "level": "exploration", "level_note": T[i][1]} for i in have if i in T
           and os.path.exists(os.path.join(here, "checks", i.lower() + ".py"))]
claimed = {c["property"] for c in checks}
na = [{"property": i, "reason": NA.get(i, "its check is not built yet")} for i in have if i not in claimed]
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: every seam is Python's own (hashes, builtins, threading, clocks, executors), patched inside the simulator's process. ./check C01 --replay FILE replays a violation."},
  open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
