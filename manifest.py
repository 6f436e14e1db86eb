#!/usr/bin/env python3
"""Write MANIFEST.json: run after changing what is claimed."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "model": "runtime monitoring: randomised histories against an executable model, compared after every operation",
    "conc": "runtime monitoring: multi-threaded stress with per-thread event logs and an offline history checker",
    "ledger": "runtime monitoring: numbered values with a construction/destruction ledger",
    "fault": "runtime monitoring: injected panics with state and value-ledger checks afterwards",
    "san": "sanitizers: Miri, AddressSanitizer and the standard library's precondition checks over randomised histories, plus attack programs run under Miri if they compile",
    "tsan": "sanitizers: ThreadSanitizer and Miri's race detector over concurrent workloads, plus attack programs with thread-affinity monitors run under Miri if they compile",
}
CLAIMED = {
    "C01": "conc", "C02": "model", "C03": "model", "C04": "conc", "C05": "conc", "C06": "model",
    "C07": "model", "C08": "ledger", "C09": "fault", "C10": "model", "C11": "model",
    "C12": "model", "C13": "model", "C14": "model", "C15": "conc", "C16": "model", "C17": "model", "C18": "model",
    "C19": "conc", "C20": "conc", "C21": "conc",
    "C22": "model", "C23": "model", "C24": "model", "C25": "san", "C26": "tsan", "C27": "conc",
}
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [], "not_applicable": [],
    "notes": "Every check builds the monitors from /repo's working tree (about 20 s) and runs them; `check.py ID --replay FILE` runs a recorded violation again.",
}
for p in props:
    if p["id"] in CLAIMED:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"python3 check.py {p['id']} --thorough",
            "technique": TECH[CLAIMED[p["id"]]],
            "level": "exploration",
            "level_note": "Held on every execution that was observed (counts in the evidence file); says nothing about executions the workloads did not produce.",
        })
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "the check is not built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
