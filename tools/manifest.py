#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl whose monitor is registered in the harness."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def t(ids, technique, note):
    for i in ids.split():
        T[i] = (technique, note)
SEQ = "Held on the seeded executions of this run (counts in the evidence file); no claim about paths not driven. Trusts the monitor's own oracle (harness/), the Go toolchain and floating-point tolerances written there."
CON = "Held on the schedules this run produced; interleavings are provoked (many threads, odd fleet sizes, slow callbacks, random delays), not enumerated. Verdicts never depend on wall-clock deadlines: a hang is decided from quiescent goroutine dumps."
t("C01 C06 C07", "runtime monitoring: decoded packet streams of running generators checked online against a round specification", CON)
t("C09", "runtime monitoring: handler calls of a running generator judged online, with the handlers themselves held at chosen points", CON)
t("C02", "runtime monitoring: single-writer history of tracker states, readers checked against the recorded states; race-detector build", CON)
t("C03", "Go race detector over concurrent mixes of all public operations, with crash and deadlock monitors", CON)
t("C04", "runtime monitoring: Close injected at every point of a round, goroutine-dump oracle for termination and leaks", CON)
t("C05", "runtime monitoring: recorded call/return histories checked for linearizability (porcupine) against a sequential registry", CON)
t("C08", "runtime monitoring: conservation checker over reported time steps under provoked contention", CON)
t("N01 N02 N03 N07 N08", "runtime monitoring: every step of random walks judged by an independent transition and geometry oracle", SEQ)
t("N04 N05 N06", "runtime monitoring: edit, jump and move histories judged by an independent path model", SEQ)
t("D01 D02", "runtime monitoring: bound and reference-model assertions on every produced value", SEQ)
t("D03 D07", "runtime monitoring: published state compared field by field with the tracker after every operation of random histories", SEQ)
t("D04", "runtime monitoring: published notations converted back by an independent projection and compared", SEQ)
t("D05", "runtime monitoring: constructors and setters judged by a table of limits over boundary-heavy random values", SEQ)
t("D06 R03", "runtime monitoring: operation histories replayed on a reference model", SEQ)
t("S01 S02 S03 S04 S07", "runtime monitoring: differential round-trip oracle over randomly aged objects", SEQ)
t("S05", "runtime monitoring: crash and endless-loop monitors over structure-aware mutated input, accepted values driven further", SEQ)
t("S06", "runtime monitoring: generated foreign documents, import compared with the generator's model", SEQ)
t("R01 R02", "runtime monitoring: assertions against an independent 3D-vector geometry oracle", SEQ)
have = set(subprocess.run([sys.argv[1], "-list"], capture_output=True, text=True, check=True).stdout.split())
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
               technique=T[i][0], level="exploration", level_note=T[i][1]) for i in ids if i in have]
na = [dict(property=i, reason="monitor not built yet") for i in ids if i not in have]
json.dump(dict(version=1, setup_cmd="./run.sh --build", checks=checks, not_applicable=na,
               notes="run.sh builds the harness (module gpsmon in harness/) against /repo's working tree; no hooks in /repo are needed."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
