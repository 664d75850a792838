#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a contract is claimed, the others are listed with the reason they are not."""
import json, re, glob
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
have = {}
for f in glob.glob('/verif/contracts/**/zz_*.go', recursive=True):
    for m in re.finditer(r'^//vc:prop (.*)$', open(f).read(), re.M):
        for p in m.group(1).split():
            have[p] = have.get(p, 0) + 1
REASON = json.load(open('/verif/tools/not_applicable.json'))
NOTE = json.load(open('/verif/tools/notes.json'))
base = ("Every obligation generated from /repo's current source by govc (a verification-condition generator over go/ssa, contracts as Go overlay files) is discharged by z3 or cvc5 for all inputs and all iterations. "
        "Trusted: govc itself, go/ssa, the solvers, integers as mathematical, no data races, termination not proved, and the assumptions listed in the evidence file.")
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in REASON:
        checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}", "evidence_file": f"evidence/{i}.json",
                       "technique": "contract-based deductive verification of the Go source (SSA verification conditions, z3/cvc5)", "level": "proof",
                       "level_note": base + (" " + NOTE[i] if i in NOTE else "")})
    else:
        na.append({"property": i, "reason": REASON.get(i, "no contract for it yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none (no hooks: contracts are laid over /repo by a build overlay, /repo itself is not instrumented)", "enable": "go build/packages overlay made by govc on every run", "source_commits": []},
           "notes": "Contracts are in /verif/contracts, laid out like the packages of /repo; the verifier is in /verif/govc."}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [c['property'] for c in checks], 'not claimed', [n['property'] for n in na])
