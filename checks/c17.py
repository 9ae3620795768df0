import gemm, vlib


def run(c):
    k = 10 if c.thorough else 1
    c.model("ViewAlg", workers=4)
    hs = [gemm.tlc_histories(c, "ViewGen", 250 * k, 40, {}, seed=s) for s in range(3)]
    jobs = [("x86_default", "-O0", hs[0]), ("x86_sse4", "-O2", hs[1]), ("aarch64", "-O1", hs[2])]
    recs = sum(vlib.par([lambda j=j: gemm.replay_with(c, "views.cc", "views_" + j[0], j[0], [], j[2], [0, c.seed], opt=j[1]) for j in jobs]), [])
    c.cov["operations_replayed"] = sum(x.count('"op":') for _, x in recs)
    gemm.judge_with(c, "ViewTrace", recs, chunks=8)
    c.assumptions = ["element offsets fit in 31 bits (the library's sizes and strides are int)", "blocks lie inside their view"]
