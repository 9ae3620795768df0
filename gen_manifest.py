#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os
T = {
 "C01": ("TLC-generated call histories replayed on every SIMD back end; recorded results judged by TLC against Gemm.tla", ""),
 "C02": ("TLC-generated histories over output pipelines; recorded entries judged by TLC against OutputStages.tla", ""),
 "C03": ("TLC-generated context histories with repeated calls; GemmTrace.tla's memo of results", ""),
 "C04": ("TLC-generated call histories on guarded memory; written/faulting addresses judged by TLC against the view addressing in Gemm.tla", ""),
 "C05": ("WorkersPool.tla refines PoolAbs.tla (TLC, safety+liveness); controlled schedules of the real pool validated against PoolTrace.tla", ""),
 "C06": ("recorded synchronisation and happens-before races of real executions validated against PoolTrace.tla (TLC)", ""),
 "C07": ("BlockingCounter.tla refines CounterAbs.tla (TLC); controlled schedules of the real counter validated against CounterTrace.tla", ""),
 "C08": ("Partition.tla model checked; recorded task write sets and thread creations of real GEMMs validated against PartitionTrace.tla", ""),
 "C09": ("Allocator.tla model checked; TLC-generated reserve histories replayed on the real allocator and validated against AllocatorTrace.tla", ""),
 "C10": ("Blocking.tla (design of the block computation) model checked; the real block parameters and helpers validated against BlockingTrace.tla", ""),
 "C11": ("TLC-generated histories of legacy API calls replayed on the library; recorded results judged by TLC against LegacyTrace.tla", ""),
 "C12": ("FixedPointAlg.tla model checked (all 8-bit operands); recorded evaluations of every primitive, lane and back end judged by TLC against FixedPointOps.tla", ""),
 "C13": ("recorded evaluations judged by TLC against exact tables and algebraic laws in FixedPointMathTrace.tla", ""),
 "C14": ("LegacyConc.tla refines SerialAbs.tla (TLC); controlled schedules of concurrent GEMMs and legacy calls validated against SerialTrace.tla", ""),
 "C15": ("MetaSplit.tla model checked; TLC-generated calls of the meta library replayed under emulation; recorded results judged by TLC against MetaTrace.tla", ""),
 "C16": ("Profiler.tla model checked; controlled schedules of TLC-generated programs on the real profiler, printed profiles validated against ProfTrace.tla", ""),
 "C17": ("TLC-generated chains of view operations replayed on the real views; addresses judged by TLC against ViewTrace.tla", ""),
 "C18": ("KernelAlg.tla (packing into declared formats) model checked; TLC-generated kernel runs and GEMMs with independent kernels replayed on every back end, judged by TLC against KernelTrace.tla and GemmTrace.tla", ""),
 "C19": ("Resources.tla (ownership of memory and threads) model checked; TLC-generated histories replayed with allocations and threads counted, validated against ResourcesTrace.tla", ""),
}
NOTE = "Bounded: TLC explores the model exhaustively within the stated constants and judges every recorded behaviour of the real code; behaviours are those generated/scheduled in a run, plus those of the model. Trusts: compilers, TLC, qemu for ARM back ends, the recording harness."
LEVEL = {}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists("checks/%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": LEVEL.get(i, "model_checking"),
                       "level_note": (T[i][1] + " " + NOTE).strip()})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "TLA+/TLC. No hooks in /repo; its commits are fix: commits only."}, open("MANIFEST.json", "w"), indent=1)
