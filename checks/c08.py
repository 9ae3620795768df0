import gemm, vlib


def run(c):
    k = 6 if c.thorough else 1
    hs = gemm.histories(c, "partition", 60 * k, hlen=9)
    small = gemm.histories(c, "partition", 10 * k, hlen=6, big=0, seed=1)
    huge = [[["T", 8], ["H", 270000000]]]
    jobs = [("x86_sse4", hs[:len(hs) // 2] + huge), ("x86_default", hs[len(hs) // 2:]), ("x86_avx2", hs[::4]), ("aarch64", small), ("armhf", small)]
    libs = ("-ldl", "-lpthread")
    fns = [lambda: c.model("Partition", workers=2)]
    for cfg, h in jobs:
        for x in h:
            c.cov['calls_replayed'] = c.cov.get('calls_replayed', 0) + sum(1 for op in x if op[0] == 'G')
    fns += [lambda cfg=cfg, h=h: gemm.replay_with(c, "part.cc", "part_" + cfg, cfg, [], h, [0, c.seed], timeout=800, libs=libs) for cfg, h in jobs]
    recs = sum(vlib.par(fns)[1:], [])
    gemm.judge_with(c, "PartitionTrace", recs)
    c.assumptions = ["a task's write set is what differs from two different fill patterns",
                     "threads are counted at pthread_create"]
