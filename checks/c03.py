import gemm


def run(c):
    k = 8 if c.thorough else 1
    hs = gemm.histories(c, "threads", 60 * k, hlen=10)
    small = gemm.histories(c, "threads", 12 * k, hlen=8, big=0, seed=1)
    hs += gemm.histories(c, "caches", 40 * k, hlen=24, seed=2)
    small += gemm.histories(c, "caches", 8 * k, hlen=16, big=0, seed=3)
    jobs = [("aarch64", 0, small, 0, "-O1"), ("armhf", 0, small, 0, "-O1"), ("armhf", 3, small, 0, "-O1"), ("aarch64", 4, small, 0, "-O1")]
    for cfg in ("x86_default", "x86_sse4", "x86_avx2"):
        for v in (0, 3, 4):
            jobs.append((cfg, v, hs, 0, "-O1"))
    recs = gemm.replay(c, jobs, timeout=800)
    gemm.judge(c, recs, "C03")
    c.assumptions = ["results are compared through a 60-bit fingerprint of all result entries"]
