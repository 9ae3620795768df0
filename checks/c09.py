import gemm, vlib

FLAGS = ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=memalign,--wrap=aligned_alloc"]


def run(c):
    k = 10 if c.thorough else 1
    hs = gemm.tlc_histories(c, "AllocatorGen", 300 * k, 24, {"BIG": "1"}, depth=40)
    small = gemm.tlc_histories(c, "AllocatorGen", 150 * k, 24, {"BIG": "0"}, depth=40, seed=1)
    long_ = gemm.tlc_histories(c, "AllocatorGen", 40 * k, 120, {"BIG": "0"}, depth=140, seed=2)
    jobs = [("x86_default", hs), ("x86_avx2", long_), ("aarch64", small), ("armhf", small)]
    fns = [lambda: c.model("Allocator", workers=2)]
    fns += [lambda cfg=cfg, h=h: gemm.replay_with(c, "alloc.cc", "alloc_" + cfg, cfg, FLAGS, h, [0, c.seed], timeout=800) for cfg, h in jobs]
    recs = sum(vlib.par(fns)[1:], [])
    c.cov["operations_replayed"] = sum(x.count('"op":') for _, x in recs)
    gemm.judge_with(c, "AllocatorTrace", recs)
    c.assumptions = ["assertions are enabled, as in the default build", "at most five blocks per round, the class's documented limit",
                     "misuse is probed in a child process"]
