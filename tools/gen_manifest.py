#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "checks"))
import props
NOTE = ("Sampling of executions of the real code, all randomness derived from VERIF_SEED; trusts the monitors' oracle, "
        "the sanitizers and the sandbox's scheduler for reach.")
TECH = {
    "L01": "online recording listeners + offline exactly-once checker over stressed executions, under ASan+UBSan",
    "L02": "offline order checker (per-producer, real-time, cross-listener) over recorded deliveries, injected delays",
    "L03": "reference-filter oracle over recorded deliveries while the filters change",
    "L04": "lifetime and delivery monitors over registration/detachment histories, incl. from within listeners",
    "L05": "conservation monitor over the diagnostics and operator-new accounting, ASan",
    "L06": "start/stop/destroy histories with forbidden-call monitor, exactly-once/order checker and hang watchdog",
    "L07": "ThreadSanitizer and ASan+UBSan over random concurrent mixes of every public operation",
    "L08": "record-format oracle and exactly-once/ordering checker over recording stream buffers, ASan",
    "L09": "per-statement reference model over random statement trees and threads, TSan and ASan+UBSan",
    "L10": "operand/block/submission counters in binaries built with every compile-time limit",
    "L11": "sequential reference model of the filter over the captured default output",
    "L12": "recording targets + offline conservation and order checker over histories of filter changes, under ASan/TSan",
    "L13": "child programs of every beginning and end, their told events, exit status and sanitizer reports judged by a parent monitor",
    "M01": "model-based monitor of programs made of an executable, a library and modules loaded and unloaded, with listeners in every part; ASan+UBSan, TSan",
    "T08": "interval oracle: marks, lapses and waits against two clocks read around each call, with signals and threads",
    "S01": "model-based monitor: every operation compared to an unbounded sequence, ASan+UBSan",
    "S02": "model-based iterator monitor over random geometries, ASan+UBSan",
    "S03": "element life, address and page-allocator accounting monitors, ASan",
    "S04": "exhaustive injection of throwing copies/constructions/allocations in random histories, with conservation monitor",
    "S05": "linearizability checker over recorded concurrent histories, and ThreadSanitizer",
    "S06": "position model of synchronised iterators over random histories; concurrent runs under TSan and ASan",
    "S07": "two-stack reference model over random histories after copies, ASan",
    "F01": "exclusion/publication monitors over contended runs of the real and of an instrumented atomic; TSan",
    "F02": "ownership and exclusion monitors over contended recursive locking; TSan",
    "F03": "counting monitor on sched_yield and the compare-exchange attempts of a blocked thread",
    "A01": "conservation and brute-force linearizability checks over recorded concurrent histories; TSan",
    "G01": "construction counters and publication monitor over racing first uses of many singleton types; TSan",
    "I01": "value oracle over random and boundary values of every type, ASan+UBSan",
    "I02": "live-value accounting over random copy/assign/destroy histories, ASan",
    "I03": "totality and saturation oracle over random and hostile values, ASan+UBSan incl. float-cast-overflow",
    "I04": "per-thread value oracle over concurrent use of own and shared objects, ThreadSanitizer",
    "I05": "child programs holding items in objects of every life, values and ends told to a parent monitor, in debug, ASan+UBSan and optimised builds",
    "C01": "rendered-text oracle over random sources and copy/move histories, ASan+UBSan and allocation accounting",
    "D01": "recording iterators: every read and step of a distribution observed and compared to the specification",
    "T01": "event-log oracle over generated test programs: exit status, output and results against the events",
    "T02": "event-log checker over generated test programs and command lines",
    "T03": "captured-output oracle over generated test programs writing to both streams",
    "T04": "independent XML parser and event-log comparison over generated reports",
    "T05": "reference command line model over random command lines, exit status and events",
    "T07": "interval oracle: told times against the clock readings of generated cases",
    "T06": "relation oracle over random operands of every check macro, with operand evaluation counters",
}
FAULT = {"S04"}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i],
                       "level": "fault_enumeration" if i in FAULT else "exploration",
                       "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "monitor not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks were needed: the monitors use the public interfaces, link-time wrapping and sanitizers",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. known_findings.txt lists the defects repaired in /repo by fix: commits."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
