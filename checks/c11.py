import os, gemm, vlib

META = "-DGEMMLOWP_USE_META_FASTPATH"


def run(c):
    k = 8 if c.thorough else 1
    big = gemm.tlc_histories(c, "LegacyGen", 120 * k, 8, {"BIG": "1"})
    small = gemm.tlc_histories(c, "LegacyGen", 60 * k, 8, {"BIG": "0"}, seed=1)
    smeta = gemm.tlc_histories(c, "LegacyGen", 120 * k, 8, {"BIG": "1"}, seed=2)
    jobs = [("x86_default", [], big), ("x86_sse4", [], big), ("x86_avx2", [], small), ("aarch64", [], small), ("armhf", [], small),
            ("aarch64", [META], smeta), ("armhf", [META], smeta)]
    recs = sum(vlib.par([lambda j=j: gemm.replay_with(
        c, "legacy.cc", "legacy_%s%s" % (j[0], "_meta" if j[1] else ""), j[0], j[1], j[2], [2, c.seed], timeout=800,
        extra_srcs=[os.path.join(vlib.REPO, "eight_bit_int_gemm/eight_bit_int_gemm.cc")]) for j in jobs]), [])
    c.cov["calls_replayed"] = sum(x.count('"op":"G"') for _, x in recs)
    gemm.judge_with(c, "LegacyTrace", recs, chunks=8)
    c.assumptions = ["parameters such that the documented integer formula does not overflow 32 bits",
                     "the float factor is a power of two, so that single-precision results are exact up to the conversion of the sum"]
