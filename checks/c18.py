import gemm, vlib

ARM = ("aarch64", "armhf", "aarch64_dotprod")


def run(c):
    k = 8 if c.thorough else 1
    hs = gemm.histories(c, "products", 40 * k, seed=11) + gemm.histories(c, "caches", 6 * k, hlen=16, seed=12)
    small = gemm.histories(c, "products", 20 * k, big=0, seed=13)
    ks = gemm.tlc_histories(c, "KernelGen", 30 * k, 12, {}, seed=14)
    jobs = []
    plan = {"x86_default": (6, 7, 8), "x86_sse4": (6, 8), "x86_avx2": (7, 8), "aarch64": (7,), "armhf": (8,)}
    for cfg in plan:
        for v in ((6, 7, 8) if c.thorough else plan[cfg]):
            jobs.append((cfg, v, small if cfg in ARM else hs, 2, "-O1"))
    fns = [lambda: c.model("KernelAlg", workers=2)]
    fns += [lambda cfg=cfg: gemm.replay_with(c, "kern.cc", "kern_" + cfg, cfg, [], ks, [c.thorough * 1, c.seed], timeout=800)
            for cfg in ("aarch64", "aarch64_dotprod", "armhf", "x86_default", "x86_sse4", "x86_avx2")]
    runs = sum(vlib.par(fns)[1:], [])
    recs = gemm.replay(c, jobs, timeout=800)
    c.cov["kernel_runs"] = sum(x.count('"op":"K"') for _, x in runs)
    gemm.judge_with(c, "KernelTrace", runs, chunks=4)
    b = c.cov["back_ends"]
    gemm.judge(c, recs, "C01")
    c.cov["back_ends"] = sorted(set(b + c.cov["back_ends"]))
    c.assumptions = ["kernels get 64-byte aligned panels and column-major destination blocks whose stride is a multiple of their rows, "
                     "as the library's drivers pass them, zero from the run's depth up to a multiple of the register size; the reference kernel any strides",
                     "operand values within the range each kernel is documented for"]
