import conc, json, os, vlib

QUICK = [("dfs", 3, 30000, 15, "B1x1"), ("dfs", 2, 30000, 15, "B2x2"), ("dfs", 2, 20000, 20, "B2x1,B2x2"),
         ("dfs", 1, 20000, 20, "B3x3,B2x2"), ("dfs", 2, 20000, 20, "B0x0,B1x1,B0x0"), ("dfs", 1, 20000, 20, "B6x2"),
         ("dfs", 2, 15000, 20, "B3x3"), ("random", 0, 2500, 15, "B4x4,B1x1,B3x2"), ("random", 0, 2500, 15, "B8x5"),
         ("random", 0, 2500, 15, "B2x2,B2x2,B2x2,B2x2")]
THOROUGH = [("dfs", 4, 400000, 200, "B2x2"), ("dfs", 3, 400000, 200, "B3x3"), ("dfs", 2, 400000, 200, "B3x3,B3x3"),
            ("dfs", 2, 400000, 200, "B5x5"), ("random", 0, 300000, 200, "B10x6"), ("random", 0, 300000, 200, "B7x7,B1x1,B5x3")]


def run(c):
    if c.thorough:
        c.model("BlockingCounter", workers=8)
    else:
        s = open(os.path.join(vlib.SPEC, "BlockingCounter.cfg")).read().replace("N = 4", "N = 3")
        p = c.path("BlockingCounter.cfg")
        open(p, "w").write(s)
        c.model("BlockingCounter", cfg=p, workers=4)
    exe = c.build_conc("pool", os.path.join(vlib.HARNESS, "pool.cc"))
    lines, stats = conc.explore(c, exe, (THOROUGH if c.thorough else []) + QUICK)
    conc.account(c, stats, lines)
    c.log("explored: %d executions, %d distinct" % (c.cov["executions_run"], len(lines)))
    for x in lines[::max(1, len(lines) // 3)][:3]:
        d = json.loads(x)
        c.sample({"scenario": d["scn"], "events": [e["e"] + str(e.get("k", "")) + "@" + str(e["t"]) for e in d["ev"]]})
    conc.judge(c, "CounterTrace", lines, {})
    c.assumptions = ["schedules at synchronisation operations; happens-before from declared memory orders"]
