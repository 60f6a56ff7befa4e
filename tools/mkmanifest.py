#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "stateful property-based testing against a set-of-edges model, with shrinking (proptest)"
NOTE_RS = ("Random search with a fixed seed: assurance grows with the number of cases, nothing is proved. "
           "Trusts the reference model and, for memory, the counting allocator; the library is built optimised "
           "with overflow checks and debug assertions on. ")
SCHED = "The scheduler picks the interleavings, so these are sampled and a replay repeats the work, not the exact schedule."
C = {
 "P01": (MODEL, "Histories of edits on graphs of every origin."),
 "P02": ("property-based testing of an invariant over every producer of undirected graphs (proptest)", ""),
 "P03": ("metamorphic property-based testing: digests before and after, clones edited apart (proptest)", ""),
 "P04": ("property-based round trips plus an independent encoder and decoder of the layout (proptest)", ""),
 "P05": ("structure-aware fuzzing against an independent decoder under a counting allocator", ""),
 "P06": ("property-based round trips plus an independent encoder and decoder of the layout (proptest)", ""),
 "P07": ("structure-aware fuzzing against an independent decoder under a counting allocator", ""),
 "P08": ("property-based testing against a block-counting model (proptest)", ""),
 "P09": ("property-based testing: model, round trip and differential between views (proptest)", ""),
 "P10": ("property-based testing against exact integer block counts (proptest)", "Averages of blocks whose area is no power of two may differ from the correctly rounded quotient by a relative 1e-14."),
 "P11": ("property-based testing against exact block counts, and monotonicity in the threshold (proptest)", "Thresholds within a relative 4e-16 of a block's average are decided by the average that the pooling of the same matrix reports, which P10 judges."),
 "P12": (MODEL, ""),
 "P13": (MODEL + ", for twelve numeric types", ""),
 "P14": ("property-based testing against an independent renderer (proptest)", ""),
 "P15": ("property-based testing against an independent renderer (proptest)", "Finite values only."),
 "P16": ("property-based testing with extreme values: no panic, consistent views, peak memory under a counting allocator", "The memory bound is 64 KiB plus 2 KiB for each edge."),
 "P17": ("property-based testing of the builder against a map of blocks (proptest)", ""),
 "P27": ("randomised concurrent histories, differential against the same scripts run alone (proptest)", SCHED),
}
NOTE_C = ("Random search with a fixed seed over call histories; nothing is proved. The calls are made by a C shim compiled "
          "against the published header and linked to the real shared library (overflow checks on). Trusts the shim, "
          "the model and the interposed allocator. ")
CC = {
 "P18": ("stateful model-based fuzzing of the C interface through its published header", ""),
 "P19": ("stateful fuzzing of the C interface over a guarding, non-reusing allocator", "Reads beyond a library block that stay inside the arena are seen only through wrong values."),
 "P20": ("stateful fuzzing of the C interface with null in every argument position", ""),
 "P21": ("structure-aware fuzzing of the C loaders against an independent decoder, with guarded buffers", ""),
 "P28": ("randomised concurrent call histories, differential against the same scripts run alone (proptest)", SCHED),
}
NOTE_PY = ("Random search with a fixed seed; nothing is proved. Runs the shipped Python package over the real shared library "
           "through a forwarding library that records every native call. Trusts the model and the recorder. ")
PY = {
 "P22": ("stateful model-based testing of the Python classes (Hypothesis)", ""),
 "P23": ("model-based testing of the Python sequences, with snapshots and dropped references (Hypothesis)", ""),
 "P24": ("structure-aware fuzzing of the Python loaders against an independent decoder (Hypothesis)", ""),
 "P25": ("stateful testing of the Python classes over a recording native layer and a guarding allocator (Hypothesis)", ""),
 "P26": ("property-based testing of the command-line tools against an independent parser (Hypothesis)", ""),
 "P29": ("randomised concurrent histories, differential against the same scripts run alone (Hypothesis)", SCHED),
}
have = [l["id"] for l in map(json.loads, open(f"{here}/properties.jsonl"))]
checks, na = [], []
for table, note in ((C, NOTE_RS), (CC, NOTE_C), (PY, NOTE_PY)):
    for i, (tech, extra) in table.items():
        if table is PY and not os.path.exists(f"{here}/python"):
            na.append({"property": i, "reason": "check not written yet"})
            continue
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
                       "technique": tech, "level": "exploration", "level_note": (note + extra).strip()})
assert sorted(have) == sorted([c["property"] for c in checks] + [n["property"] for n in na])
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness uses public interfaces only. See DESIGN.md."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
