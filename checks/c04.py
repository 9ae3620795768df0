import gemm


def run(c):
    k = 8 if c.thorough else 1
    hs = gemm.histories(c, "memory", 100 * k)
    small = gemm.histories(c, "memory", 30 * k, big=0, seed=1)
    hs += gemm.histories(c, "caches", 15 * k, hlen=16, seed=4)
    jobs = []
    for cfg in ("aarch64", "armhf"):
        for v in (0, 2, 3, 4):
            jobs.append((cfg, v, small, 0, "-O1"))
    for cfg in ("x86_default", "x86_sse4", "x86_avx2"):
        for v in (0, 3, 4, 5):
            jobs.append((cfg, v, hs, 0, "-O1"))
    recs = gemm.replay(c, jobs, timeout=800)
    gemm.judge(c, recs, "C04")
    c.assumptions = ["reads are detected where they leave the operand's pages (the operand ends or starts at an inaccessible page) or when they fault"]
