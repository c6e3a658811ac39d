#!/usr/bin/env python3
"""Regenerates MANIFEST.json from sim/plan.ts and properties.jsonl."""
import json, re
plan = open('/verif/sim/plan.ts').read()
claimed = re.findall(r'^  (C\d\d): \{', plan, re.M)
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
notes = {}
try: notes = json.load(open('/verif/tools/notes.json'))
except FileNotFoundError: pass
checks = []
for p in props:
    if p['id'] not in claimed: continue
    checks.append({
        "property": p['id'],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
        "level": "exploration",
        "level_note": notes.get(p['id'], "Sampled, not exhaustive: a clean run says that no explored seed breaks the property. Trusts the simulator and its stubs (network, clock, peers), which are independent of the code under test."),
    })
na = notes.get('not_applicable', [])
missing = [p['id'] for p in props if p['id'] not in claimed and p['id'] not in [x['property'] for x in na]]
for m in missing: na = na + [{"property": m, "reason": "not built yet"}]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
  "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks replace JavaScript globals (timers, clock, randomness, crypto completion, sockets) and inject storages", "source_commits": []},
  "not_applicable": na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', 'missing', missing)
