import gemm, os, vlib

ASAN = ["-fsanitize=address", "-static-libasan"]


def run(c):
    k = 8 if c.thorough else 1
    c.model("MetaSplit")
    jobs = []
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:symbolize=0:handle_segv=0:handle_abort=0:abort_on_error=1:detect_stack_use_after_return=0"

    def add(src, name, arch, flags, op, num, hlen):
        jobs.append((src, "%s_%s" % (name, arch), arch, flags, op, num, hlen, len(jobs)))
    for arch in ("armhf", "aarch64"):
        for kind in (0, 1, 2):
            for order in (0, 1):
                add("meta.cc", "meta%d%d" % (kind, order), arch, ["-DKIND=%d" % kind, "-DORDER=%d" % order], "G", 14 * k, 12)
            add("meta.cc", "legacy%d" % kind, arch, ["-DKIND=%d" % kind, "-DORDER=0", "-DLEGACY"], "L", 6 * k, 12)
        if arch == "aarch64":  # parameters and buffers used by tasks are alive: address sanitizer, tasks in the caller's thread
            add("meta.cc", "legacy_asan", arch, ["-DKIND=0", "-DORDER=0", "-DLEGACY"] + ASAN, "LS", 3 * k, 6)
        add("metax.cc", "transform", arch, [], "X", 24 * k, 16)

    def one(j):
        hs = gemm.tlc_histories(c, "MetaGen", j[5], j[6], {"OP": j[4]}, seed=j[7])
        return gemm.replay_with(c, j[0], j[1], j[2], j[3], hs, [2, c.seed], timeout=800, opt="-O0" if ASAN[0] in j[3] else "-O1")
    recs = sum(vlib.par([lambda j=j: one(j) for j in jobs]), [])
    c.cov["calls_replayed"] = sum(x.count('"op":"') for _, x in recs)
    gemm.judge_with(c, "MetaTrace", recs, chunks=8)
    c.assumptions = ["scratch memory is 64-byte aligned (the 32-bit kernels' alignment hints require it)",
                     "depth of the older entry points is 8..2048 for large matrices, as eight_bit_int_gemm.cc states",
                     "transformation parameters are chosen so that single-precision arithmetic is exact; Requantize's output_range_offset is 0"]
