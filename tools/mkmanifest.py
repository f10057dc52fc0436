#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the table of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = ("TLC validates every recorded call, its results and everything observable afterwards against the abstract "
       "state machine CrabAlloc.tla; covers the histories executed (random and specification-derived), on the CPU "
       "runtime, through the public API only. Trusts TLC, the driver's projection and rustc.")
CHECKS = {}
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C22", "C23", "C24"]:
    CHECKS[p] = ("TLA+ trace validation (TLC) of the real allocator against CrabAlloc.tla", SEQ)
CHECKS["C21"] = ("TLA+ trace validation (TLC) of the GPU runtime, side by side with the CPU reference runtime",
                 "As for C01, on WgpuRuntime compiled against a stand-in for the wgpu crate that keeps buffers in memory and refuses "
                 "what WebGPU's validation refuses. Trusts that stand-in.")
RNG = ("TLC checks the design models (RangeVec refines FreeRanges; WriteVec: last writer wins) exhaustively within small "
       "bounds, emits every transition as a program for the real range managers and validates the recorded histories.")
for p in ["C14", "C15"]:
    CHECKS[p] = ("TLA+ models checked with TLC, their behaviours replayed into the real code and its traces validated", RNG)
SLB = ("TLC validates every recorded call and the complete memory after it against the layout and memory specification "
       "(Layout.tla, TraceSlab.tla); covers the values and positions executed: enumerated from SlabMem/GrowSlab and random.")
for p in ["C16", "C17"]:
    CHECKS[p] = ("TLA+ models enumerate programs, TLC validates traces of the real slabs", SLB)
for p in ["C18", "C20"]:
    CHECKS[p] = ("TLA+ trace validation (TLC) of the real codecs and addresses against Layout.tla/TraceSlab.tla", SLB)
CHECKS["C19"] = ("Generated type definitions; TLA+ trace validation (TLC) of the derived items against Layout.tla",
                 "As for C18, for randomly generated and hand-written type definitions compiled against the derive macro.")
CNC = ("The real allocator runs multi-threaded programs (enumerated by TLC from ConcProg.tla, and random) under controlled "
       "schedules: all with up to two preemptions for the small ones, random and PCT for the rest; TLC searches every recorded "
       "history for an explanation by ConcAlloc.tla, which the lock-grain design CommitDesign.tla is checked to refine. Sequentially consistent interleavings at locks, atomics, channels and "
       "reference counts; the standard library's primitives and async-channel are replaced by schedulable equivalents.")
for p in ["C10", "C11", "C12", "C13"]:
    CHECKS[p] = ("TLA+ linearizability check (TLC, ConcAlloc.tla) of histories of the real code under controlled schedules", CNC)


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
         "notes": "TLA+ with TLC. No hooks in /repo: everything is observed through the public API. See DESIGN.md."}
    for p in props:
        if p in CHECKS:
            t, n = CHECKS[p]
            m["checks"].append({"property": p, "quick_cmd": "bin/check %s quick" % p,
                                "thorough_cmd": "bin/check %s thorough" % p, "technique": t,
                                "level": "model_checking", "level_note": n})
        else:
            m["not_applicable"].append({"property": p, "reason": "check not built yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
