import conc, os, vlib, json

QUICK = [("dfs", 1, 20000, 20, "E1,E2"), ("dfs", 2, 20000, 20, "E2"), ("dfs", 1, 20000, 20, "E2,E3"),
         ("dfs", 1, 20000, 20, "L3,E2"), ("dfs", 1, 20000, 20, "L2,L1,E2"), ("dfs", 1, 6000, 20, "E3,E3"),
         ("dfs", 1, 6000, 20, "E4"), ("random", 0, 2500, 15, "E2,E3,E4"), ("random", 0, 2500, 15, "L4,E2,E3"),
         ("random", 0, 1500, 15, "E5,E5"), ("random", 0, 1500, 15, "E2,L2,E2,L2"), ("random", 0, 1000, 15, "E1"),
         ("random", 0, 600, 15, "E7"), ("random", 0, 1500, 15, "E3,E3,E3,E3,E3")]
THOROUGH = [("dfs", 3, 400000, 250, "E2"), ("dfs", 2, 400000, 250, "E2,E2"), ("dfs", 2, 400000, 250, "E3"),
            ("dfs", 2, 400000, 250, "L2,E3"), ("dfs", 2, 400000, 250, "E3,E2"), ("dfs", 1, 400000, 250, "E4,E4"),
            ("dfs", 1, 400000, 250, "E2,E5"), ("random", 0, 400000, 250, "E2,E4,E3,E6"),
            ("random", 0, 400000, 250, "L3,E3,L3,E3"), ("random", 0, 400000, 250, "E8"),
            ("random", 0, 400000, 250, "E2,E2,E2,E2,E2,E2")]


def collect(c):
    exe = c.build_conc("pool", os.path.join(vlib.HARNESS, "pool.cc"))
    c.log("built")
    jobs = list(QUICK)
    if c.thorough:
        jobs = THOROUGH + jobs
    sched = conc.spec_schedules(c, 3000 if c.thorough else 300)
    jobs += conc.hint_jobs(c, sched)
    lines, stats = conc.explore(c, exe, jobs)
    conc.account(c, stats, lines)
    c.cov["spec_generated_schedules_replayed"] = len(sched)
    c.log("explored: %d executions, %d distinct" % (c.cov["executions_run"], len(lines)))
    cap = 60000 if c.thorough else 4500
    bad = [x for x in lines if '"bad"' in x]
    if len(lines) > cap:   # keep every kind of ending and a spread of the rest
        odd = [x for x in lines if any(('"e":"%s"' % k) in x for k in (
            "Race", "Deadlock", "Livelock", "Hang", "Assert", "Abort", "UseAfterFree", "DoubleFree", "Segv"))
            or '"ok":0' in x]
        step = len(lines) / float(cap)
        lines = odd[:500] + [lines[int(i * step)] for i in range(cap)]
    for x in lines[::max(1, len(lines) // 3)][:3]:
        d = json.loads(x)
        c.sample({"scenario": d["scn"], "how": d["how"], "events": [e["e"] + str(e.get("k", "")) + "@" + str(e["t"]) for e in d["ev"]]})
    return lines


def run(c):
    c.model("WorkersPool", workers=4, cfg=thorough_cfg(c))
    lines = collect(c)
    conc.judge(c, "PoolTrace", lines, {"ASPECT": "C05"})
    c.assumptions = ["schedules are explored at synchronisation operations, under sequential consistency",
                     "the busy-wait length constant is shortened in a scratch copy so that giving up is cheap"]


def thorough_cfg(c):
    if not c.thorough:
        return None
    s = open(os.path.join(vlib.SPEC, "WorkersPool.cfg")).read()
    s = s.replace("MaxTasks = 3", "MaxTasks = 4").replace("MaxSpurious = 1", "MaxSpurious = 2")
    p = c.path("WorkersPool.cfg")
    open(p, "w").write(s)
    return p
