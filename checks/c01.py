import gemm

ARM = ("aarch64", "armhf", "aarch64_dotprod")


def run(c):
    c.model("GemmAlg", workers=4)
    k = 8 if c.thorough else 1
    hs = gemm.histories(c, "products", 60 * k)
    small = gemm.histories(c, "products", 30 * k, big=0, seed=1)
    deep = gemm.histories(c, "deep", 5 * k, hlen=4, seed=2)
    deep_arm = gemm.histories(c, "deep", 2 * k, hlen=3, seed=3)
    hs += gemm.histories(c, "caches", 10 * k, hlen=16, seed=4)
    jobs = []
    for cfg in ("aarch64", "aarch64_dotprod", "armhf", "x86_default", "x86_sse4", "x86_avx2"):
        h = small + deep_arm if cfg in ARM else hs + deep
        for v in ((0, 2) if cfg == "aarch64_dotprod" else (0, 1, 2)):
            jobs.append((cfg, v, h, 2, "-O1"))
    recs = gemm.replay(c, jobs, timeout=800)
    gemm.judge(c, recs, "C01")
    c.assumptions = ["ARM back ends run under qemu user-mode emulation",
                     "every entry of every call is compared in the harness with the formula; entries that differ and a sample of the others are decided by TLC"]
