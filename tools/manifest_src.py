#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run: python3 tools/manifest_src.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
BFS = "explicit-state breadth-first search of the real code's call histories against a reference model"
ENUM = "exhaustive enumeration of the input space on the real code"
BOTH = BFS + ", plus " + ENUM
T = {
    **{i: (BOTH, "model_checking") for i in "M01 M02 D02 D04 D05 B01 B04 E01 E03 E04 E05 O07".split()},
    **{i: (BFS, "model_checking") for i in "M06 D01 D07 E02 E06 O02".split()},
    "X03": ("exhaustive enumeration of all pairs of objects, call histories and interleavings on the real code", "exploration"),
    "M07": ("stateless model checking of the compiled code: all interleavings of the instructions that access shared memory, and bounded context switches at every machine instruction", "exploration"),
    "X05": ("exhaustive enumeration of calls, arguments and histories on the compiled code, counting machine instructions (cycle counter, then CPU trap flag)", "exploration"),
    "X04": ("stateless model checking of the compiled code: interruption at every machine instruction (CPU trap flag)", "exploration"),
}
NOTE = {
    "model_checking": "Every history up to the depth in the evidence (complete where a configuration closes), on the real code; states merge only when the concrete bytes of objects, memory and model are equal; a sample of paths is re-executed from scratch. Beyond the depth, and for data values outside the alphabets, nothing is claimed.",
    "exploration": "Every case of the enumeration named in the evidence is executed on the real code and compared with an independent double-precision or integer reference. The evidence says for each scenario which cases were enumerated: in the release build nearly always all of them in both tiers; where quick takes a fixed sub-grid it always includes all floats of at most 12 significant bits and their neighbours, and thorough is complete.",
}
SCHED = "Every schedule of the enumeration named in the evidence is executed on the compiled code (x86-64, two builds), one machine instruction at a time, in program order; the preemption bounds and strides are in the evidence, weak memory orders of other processors are not explored."
NOTES = {"M07": SCHED, "X04": SCHED, "X05": "Every case of the enumeration named in the evidence is executed on the compiled code (x86-64, two builds). Whatever the cycle counter does not show to be within the bound is executed again one machine instruction at a time and counted; the verdict rests on the count only. Arguments and histories outside the enumeration are not covered."}
NA = {
}
checks = []
for i in ids:
    if i in NA:
        continue
    tech, level = T.get(i, (ENUM, "exploration"))
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "model checking: " + tech,
        "level": level,
        "level_note": NOTES.get(i, NOTE[level]),
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the harness (mc/) is an ordinary dependent crate using the public API, built in three profiles. Findings: KNOWN_FINDINGS.txt. Replays: check.sh --replay FILE.",
}, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
