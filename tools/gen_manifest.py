#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "differential runtime monitor: every call's result and operands against math/big, all aliasing patterns",
 "C02": "differential runtime monitor of codecs against math/big and encoding/json with dirty receivers",
 "C03": "differential runtime monitor against exact big-integer quotients, rejection observed",
 "C04": "exhaustive differential monitor over every tick, before and after hostile use of returned values",
 "C05": "differential monitor at every tick boundary and its neighbours plus random prices",
 "C06": "exhaustive differential monitor of tick rounding, constants watched before and after use of every part",
 "C07": "differential monitor against a reference swap step plus independent bound assertions",
 "C08": "differential monitor against exact rational values and the contract's formulas, rejection observed",
 "C09": "differential monitor plus assertions on charges and payouts observed on real pools",
 "C10": "lockstep reference-model monitor over generated pool histories",
 "C11": "lockstep reference-model monitor over generated pool histories (ticks, positions, amounts)",
 "C12": "lockstep reference-model monitor of fee accumulators, owed and collected tokens",
 "C13": "structural invariants asserted after every operation of generated histories",
 "C14": "conservation ledger over observed amounts, liquidation in random orders, round-trip trades",
 "C15": "online monitor of swap stop conditions with a processor-time hang watchdog",
 "C16": "non-interference monitor over adversarial families of range pairs",
 "C17": "independence monitor over trees of clones, full views compared after each operation",
 "C18": "rejection monitor: full view before and after, twin pool that never saw the request",
 "C19": "differential monitor of the tick table against a sorted-set model with word boundaries",
 "C20": "accounting monitor over strategy histories, holdings discovered by probing clones",
 "C21": "definition oracle over the observed change of the pool's tick table",
 "C22": "crash monitor over hostile strategy and market histories",
 "C23": "differential monitor against exact statistics of the last n prices",
 "C24": "trace checker: recorded strategy calls and pool states against the schedule's definition",
 "C25": "Go race detector plus comparison of concurrent with isolated executions",
 "C26": "round-trip monitor over generated transactions",
 "C27": "end-to-end monitor of the real program's reports, rows replayed independently, faults injected",
 "C28": "live-heap monitor over repeated state-preserving cycles",
 "C29": "fault injection into the real program's input, exit status and report file monitored",
}
N = {
 "C06": "Exhaustive over all ticks in twice the valid range for eleven spacings, sampled for the others.",
 "C28": "A leak is seen if it exceeds about 64 bytes or one object per repetition of a cycle that was generated; noise is told from growth by repeating.",
 "C29": "One defect per run, at sampled places of sampled files; the control runs show that the same kind of data without a defect succeeds.",
 "C04": "Exhaustive over all ticks; the reference recomputes the contract's algorithm with big integers.",
 "C05": "Both ends of every tick's interval in the thorough tier, a dense sample in the quick tier; the reference is C04's exact table.",
 "C25": "Held on the interleavings that occurred (jittered, several processor counts); the race detector judges happens-before, so an unsynchronised pair is reported even if it did not collide. A canary race proves the detector alive in every run.",
 "C27": "All rows' identity and finiteness, all rows' values on short files, sampled rows on long files; sampled rows also against the big-integer reference.",
}
default = "Held on the executions generated from the seed (counts and distinct situations in the evidence file); trusts the big-integer reference in harness/ref. No claim about inputs that were not generated."
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": "VERIF_TIER=quick bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                 "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "exploration", "level_note": N.get(i, default)} for i in ids],
     "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through exported functions and fields. Replays: bash check.sh Cxx --only group/case (case as named in the replay file) with the same VERIF_SEED and VERIF_TIER."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
