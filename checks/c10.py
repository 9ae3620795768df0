import gemm, vlib


def run(c):
    k = 8 if c.thorough else 1
    qs = gemm.tlc_histories(c, "BlockingGen", 60 * k, 60, {})
    hs = gemm.histories(c, "products", 40 * k, seed=3)
    small = gemm.histories(c, "products", 16 * k, big=0, seed=4)
    cfgs = ("aarch64", "armhf", "x86_default", "x86_sse4", "x86_avx2")
    fns = [lambda: (c.model("Blocking", workers=2), [])[1], lambda: (c.model("GemmAlg", workers=2), [])[1]]
    fns += [lambda cfg=cfg: gemm.replay_with(c, "blocks.cc", "blocks_" + cfg, cfg, [], qs[::4] if cfg in gemm.ARM else qs, [0, c.seed], timeout=800) for cfg in cfgs]
    recs = sum(vlib.par(fns), [])
    c.cov["block_queries"] = sum(x.count('"op":"B"') for _, x in recs)
    jobs = [(cfg, v, small if cfg in gemm.ARM else hs, 1, "-O1") for cfg in cfgs for v in ((0, 1, 3) if cfg != "armhf" else (0, 2))]
    runs = gemm.replay(c, jobs, timeout=800, flags=["-DGUARDED_ALLOC"], tolerate=True)
    gemm.judge_with(c, "BlockingTrace", recs, chunks=4)
    if runs:
        gemm.judge(c, runs, "C10")
    c.assumptions = ["whole GEMM calls run with a stand-in allocator that puts each scratch block in guarded memory of its own",
                     "dimensions and cache sizes are small enough that products of two block sizes fit in int"]
