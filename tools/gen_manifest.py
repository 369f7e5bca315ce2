#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHOICE = "exhaustive stateless exploration of environment choices on the real code, in lock step with a reference model"
NOTES = {
 "C21": ("exhaustive enumeration of operation sequences and of preemption-bounded interleavings on the real code, every history in a fresh process, against fresh-process baselines",
         "All pairs of 97 colliding operations, on one thread and across threads, triples (quick: 3 middle operations, thorough: 40), repetitions and de Bruijn histories; every schedule of two calls with one preemption at an allocation, release or clock read (thorough: two), and at every access to static data or atomic operation (found by single-stepping the call). A dependence on state that needs longer or other histories, more threads, or a switch between two such points, is not covered."),
 "C22": ("explicit-state breadth-first search of the issuer/wallet/attacker/clock protocol, every transition executed by the real code",
         "Every action of wallets, an attacker and the clock in every reachable state of the bounded protocol (2 sessions, nonce renewals, clock up to past the nonce's lifetime; thorough: deeper, and 3 sessions). Signatures are ideal; DID resolution and the issuer application are the check's own."),
 "C20": ("exhaustive stateless exploration of malformed and extreme inputs on the real code, panics and hangs captured",
         "Every execution of all other input-exploring checks plus grammars of malformed proofs, documents and messages, with overflow checks on. A panic that needs inputs outside the enumerated grammars, or memory exhaustion, is not covered."),
}
DEFAULT = "Every combination of the enumerated environment choices was run against the real code and compared with an independently written reference model; inputs outside the alphabets and bounds listed in DESIGN.md are not covered. Trusted: the reference model, the virtual clock (self-tested), chrono, serde_json and ssi as shipped."
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    tech, note = NOTES.get(p, (CHOICE, DEFAULT))
    checks.append({
        "property": p,
        "quick_cmd": f"./run.sh {p} quick",
        "thorough_cmd": f"./run.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "model checking: " + tech,
        "level": "model_checking",
        "level_note": note,
    })
out = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything the checks need is public. Known findings: known_findings.txt. Replays: ./run.sh replay <file>.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
