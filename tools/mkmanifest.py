#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation: seeded scheduler over simulated clients with fault injection, checked against a reference model"
NOTE = {
 "C01": "2-5 simulated threads under a baton scheduler preempting at every atomic access, comparison and callback; and every plain write to shared memory, with nested queries from callbacks; relaxed loads may return older values; every answer compared with a lone reader's; seeded sample of schedules",
 "C02": "interleaved client histories over trees, maps and sets of up to 130000 entries, every answer checked against a sorted reference model; seeded sample",
 "C03": "cursors kept across other clients' modifications, clears, refills and clones; every step checked against the model; seeded sample",
 "C04": "comparison, key-clone and callback panics injected at seeded points inside operations; the collection is audited against the state before; seeded sample",
 "C05": "ledger of every live key, value, group and augmentation object, poisoned and quarantined memory; exact release checked after every step and at the end; seeded sample",
 "C06": "clients interleave front, back and fork on borrowed and consuming iterators over simulated histories; exact lengths and elements; seeded sample",
 "C07": "root augmentation, select, rank, group size recomputed from scratch after each step of faulted histories; seeded sample",
 "C08": "bulk construction from adversarial sources (misreported length, panics, duplicates, boundary lengths), then interleaved modification; seeded sample",
 "C09": "clones taken at any moment of interleaved histories, both sides audited after everything done to either, clone panics injected; seeded sample",
 "C10": "orders that lie (randomly or over time) and callbacks returning arbitrary positions; ledger, poison and length oracle; seeded sample",
 "C11": "every allocation of a run is a failure point; a seeded subset is failed, each in a forked copy of the process that must end in the allocation-error report; seeded sample",
 "C12": "several consumers of one union interleaved: advance, fork, finish, abandon, comparison panics, reader threads; every element and size hint checked against the merged models; seeded sample",
 "C13": "",
}
NA = [
 {"property": "C13", "reason": "a cost bound on single operations as a function of the tree size: a performance property with no schedule, fault or interleaving in it, which simulation does not decide (a run that stops making progress is still reported as a hang by every check)"},
]
checks = []
for p, n in NOTE.items():
    if not n: continue
    checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
      "evidence_file": f"evidence/{p}.json", "technique": T, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks}
na = [x for x in NA if not NOTE[x["property"]]]
m["not_applicable"] = na
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
