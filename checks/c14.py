import conc, json, os, re, vlib

SRC = ["$REPO/eight_bit_int_gemm/eight_bit_int_gemm.cc"]
FIXED = ["s2,i2|i3,r", "i0|i1|f0", "g0|g1|i2", "s2,f2|r,i3", "t2,g2|t2,g3", "f0,r|f1,r|s3", "g4|g6|g8", "r|r|i0", "s2,i2|s3,i5|r"]
META = ["s2,i2|i3", "s3,f5|r,i2", "i2|f3|s2", "i0|r"]


def programs(c, kind, num):
    r = c.tlc("SerialGen", workers=1, env={"KIND": kind}, extra=["-simulate", "num=%d" % num, "-depth", "8", "-seed", str(c.seed)],
              count=False)
    ps = sorted(set(re.findall(r'"PROG ([^"]*)"', r["out"])))
    if not ps:
        raise vlib.CheckError("TLC generated no programs:\n" + r["out"][-2000:])
    return ps


def run(c):
    k = 12 if c.thorough else 1
    cfg = os.path.join(vlib.SPEC, "LegacyConc3.cfg") if c.thorough else None
    gen = sum(([(p) for p in programs(c, kind, n * k)] for kind, n in (("legacy", 24), ("own", 16), ("mix", 20))), [])
    c.cov["spec_generated_programs"] = len(gen)
    H = os.path.join(vlib.HARNESS, "conc.cc")
    variants = [("x86_sse4", [], gen, FIXED, 40, 300, 12), ("x86_default", [], gen[::6 if not c.thorough else 1], FIXED[:4], 8, 40, 12),
                ("x86_avx2", [], gen[::5 if not c.thorough else 1], FIXED[4:6], 20, 60, 12),
                ("aarch64", ["-DGEMMLOWP_USE_META_FASTPATH", "-DMETA_LAYOUT"], gen[1::12 if not c.thorough else 2], META, 5, 12, 25)]

    c.scratch_repo()
    exes = vlib.par([lambda v=v: c.build_conc("conc_" + v[0], H, extra=SRC, flags=v[1], config=v[0]) for v in variants])
    c.log("built")
    jobs = []
    for exe, (config, _, progs, fixed, nr, nd, secs) in zip(exes, variants):
        jobs += [(exe, c.runner(config), "dfs", 1, nd * k, secs * (6 if c.thorough else 1), s) for s in fixed]
        jobs += [(exe, c.runner(config), "random", 0, nr, secs, s) for s in progs]
    jobs.sort(key=lambda j: (not j[1], j[2] != "dfs"))   # slow ones first
    lines, st = conc.explore_all(c, jobs)
    conc.account(c, st, lines)
    c.model("LegacyConc", cfg=cfg, workers=2)
    c.log("explored: %d executions, %d distinct" % (c.cov["executions_run"], len(lines)))
    for x in lines[::max(1, len(lines) // 4)][:4]:
        d = json.loads(x)
        c.sample({"scenario": d["scn"], "how": d["how"], "events": [e["e"] + str(e.get("op", "")) + "@" + str(e["t"]) for e in d["ev"] if e["e"] != "Alone"]})
    conc.judge(c, "SerialTrace", lines, {"ASPECT": "C14"}, chunks=8)
    c.assumptions = ["schedules are explored at synchronisation operations and recorded events, under sequential consistency; "
                     "happens-before races are computed from declared memory orders",
                     "memory accesses inside inline assembly kernels are not seen by the race detector"]
