import os, gemm, vlib

META = "-DGEMMLOWP_USE_META_FASTPATH"


def run(c):
    k = 8 if c.thorough else 1
    ctx = gemm.histories(c, "threads", 40 * k, hlen=10, seed=21)
    leg = gemm.tlc_histories(c, "LegacyGen", 40 * k, 10, {"BIG": "1"}, seed=22)
    pool = gemm.tlc_histories(c, "PoolUseGen", 30 * k, 10, {}, seed=23)
    hs = [gemm.text(h) for h in ctx] + ["L;" + gemm.text(h) for h in leg] + ["P;" + gemm.text(h) for h in pool]
    few = [gemm.text(h) for h in gemm.histories(c, "threads", 8 * k, hlen=8, big=0, seed=24)]
    few += ["L;" + gemm.text(h) for h in gemm.tlc_histories(c, "LegacyGen", 15 * k, 8, {"BIG": "0"}, seed=25)] + ["P;" + gemm.text(h) for h in pool[:8 * k]]
    jobs = [("x86_default", [], hs), ("x86_sse4", [], hs), ("aarch64", [], few), ("aarch64", [META], few), ("armhf", [META], few)]
    fns = [lambda: c.model("Resources", workers=2)]
    fns += [lambda j=j: gemm.replay_with(c, "res.cc", "res_%s%s" % (j[0], "_meta" if j[1] else ""), j[0], j[1], j[2], [0, c.seed], timeout=800,
                                         libs=("-ldl", "-lpthread"), extra_srcs=[os.path.join(vlib.REPO, "eight_bit_int_gemm/eight_bit_int_gemm.cc")])
            for j in jobs]
    recs = sum(vlib.par(fns)[1:], [])
    c.cov["releases"] = sum(x.count('"op":"Z"') for _, x in recs)
    c.cov["calls_replayed"] = sum(x.count('"op":"G"') + 24 * x.count('"op":"R"') for _, x in recs)
    gemm.judge_with(c, "ResourcesTrace", recs)
    c.assumptions = ["memory is what malloc and its relatives hand out; what glibc itself keeps for a thread is not counted",
                     "state the library sets up once per process, on first use, belongs to no context"]
