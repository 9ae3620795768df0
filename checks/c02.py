import gemm

ARM = ("aarch64", "armhf")


def run(c):
    k = 8 if c.thorough else 1
    hs = gemm.histories(c, "stages", 120 * k)
    small = gemm.histories(c, "stages", 50 * k, big=0, seed=1)
    jobs = []
    for cfg in ("aarch64", "armhf", "x86_default", "x86_sse4", "x86_avx2"):
        for v in (3, 4, 5):
            jobs.append((cfg, v, small if cfg in ARM else hs, 2, "-O1"))
    recs = gemm.replay(c, jobs, timeout=800)
    gemm.judge(c, recs, "C02")
    c.assumptions = ["entries for which an intermediate stage value does not fit in 32 bits are not specified and not judged",
                     "ARM back ends run under qemu user-mode emulation",
                     "the int8 saturating cast, truncating cast and per-channel fixed-point stages are only judged on the back ends that implement them"]
