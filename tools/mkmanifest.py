"""Writes MANIFEST.json: claims every property that has a check module."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
NA = {
 "C30": "pure function of its argument (escape/unescape): no schedule, clock, I/O or fault can influence it, so there is nothing for a simulator to decide; its effects on saved files are covered by C03",
 "C31": "pure function of text and width: folding/unfolding depends on no schedule, clock, I/O or fault; the scoped width is covered by C08 and delivery by C01",
 "C32": "pure functions of a value: nothing nondeterministic to simulate; whole-calendar round trips are covered by C03",
 "C33": "pure order on immutable values once the local zone is fixed: nothing to schedule or to fail; the part that depends on the changing local zone is C11",
 "C34": "pure arithmetic on immutable values: nothing to schedule or to fail; interrupted edits are C13",
 "C35": "pure function of one rule text: nothing to schedule or to fail; duplicate state across loads is covered by C03/C14",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(V, "props", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": f"bin/check {p} --tier quick", "thorough_cmd": f"bin/check {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration",
                       "level_note": NOTES.get(p, "Seeded search over simulated executions of the real code; nothing is proved beyond the runs explored.")})
    else:
        na.append({"property": p, "reason": "its check is not built yet"})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: all seams (clock, entropy, locks, thread scheduling by line tracing, storage, process restart) are attached from outside."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
