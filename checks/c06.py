import conc, c05, c14, os, vlib

GEMMS = ["t2,g2", "t3,g9", "t4,g7,g2", "t2,g5,t4,g3"]


def gemms(c):
    """The library's own multi-threaded GEMMs under controlled schedules."""
    progs = c14.programs(c, "solo", 60 if c.thorough else 10)
    c.cov["spec_generated_programs"] = len(progs)
    H = os.path.join(vlib.HARNESS, "conc.cc")
    configs = ["x86_default", "x86_sse4", "x86_avx2"] if c.thorough else ["x86_default", "x86_sse4"]
    exes = vlib.par([lambda v=v: c.build_conc("conc_" + v, H, extra=c14.SRC, config=v) for v in configs])
    jobs = []
    for exe, cfg in zip(exes, configs):
        n, s = (400, 60) if c.thorough else (15, 8)
        jobs += [(exe, c.runner(cfg), "dfs", 1, n, s, p) for p in GEMMS]
        jobs += [(exe, c.runner(cfg), "random", 0, n // 3, s, p) for p in progs]
    lines, st = conc.explore_all(c, jobs)
    conc.account(c, st, lines)
    c.log("GEMMs explored: %d executions, %d distinct" % (sum(s["runs"] for s in st), len(lines)))
    conc.judge(c, "SerialTrace", lines, {"ASPECT": "C06"}, chunks=4)


def run(c):
    c.model("WorkersPool", workers=4, cfg=c05.thorough_cfg(c))
    lines = c05.collect(c)
    conc.judge(c, "PoolTrace", lines, {"ASPECT": "C06"})
    gemms(c)
    c.assumptions = ["happens-before is computed from the executed locks, atomics with their declared memory orders, "
                     "and thread creation/joining (vector clocks), on sequentially consistent executions",
                     "memory accesses of the instrumented translation unit and memcpy/memset/memmove are seen; inline asm is not "
                     "(the reference-kernel build has none)"]
