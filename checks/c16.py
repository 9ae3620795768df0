import conc, json, os, re, vlib

FIXED = ["S,c1,r,p0,y,j1,o,F|r,p1,p2,o", "c1,S,c2,y,F,j1,j2,S,p0,p1,r,y,o,F|r,p1,p2,o|r,p0,p1,u2,o", "c1,S,y,F,j1|y,y,r,p1",
         "r,S,p0,p1,p2,p3,o,u4,p0,o,o,F", "S,F,S,r,p0,F", "c1,c2,S,F,j1,j2|r,p0,p1|r,p0,p2", "c1,S,j1,c2,j2,F|r,p0,u1,u2|g,r,p0",
         "S,c1,j1,c2,j2,c3,j3,c4,j4,c5,j5,c6,j6,c7,j7,c8,j8,c9,j9,c10,j10,F" + "|r,p1,p2" * 10,
         "r,p0,p1,p2,p3,p4,p0,p1,p2,p3,p4,p0,p1,p2,p3,p4,p0,p1,p2,p3,p4,p0,p1,p2,p3,p4,p0,p1,p2,p3,p4,S,y,F"]


def programs(c, nthr, num):
    r = c.tlc("ProfGen", workers=1, env={"NTHR": str(nthr)}, extra=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(c.seed + nthr)], count=False)
    ps = sorted(set(re.findall(r'"PROG ([^"]*)"', r["out"])))
    if not ps:
        raise vlib.CheckError("TLC generated no programs:\n" + r["out"][-2000:])
    return ps


def run(c):
    k = 12 if c.thorough else 1
    progs = sum((programs(c, n, m * k) for n, m in ((0, 8), (1, 30), (2, 40), (3, 20))), [])
    c.cov["spec_generated_programs"] = len(progs)
    vlib.par([lambda: c.model("Profiler", workers=3), lambda: c.model("Profiler", cfg=os.path.join(vlib.SPEC, "ProfilerLive.cfg"), workers=3)])
    exe = c.build_conc("prof", os.path.join(vlib.HARNESS, "prof.cc"), flags=["-DGEMMLOWP_PROFILING"], config="x86_sse4")
    jobs = [(exe, [], "dfs", 2 if c.thorough else 1, 250 * k, 20 * (4 if c.thorough else 1), s) for s in FIXED]
    jobs += [(exe, [], "random", 0, 40, 15, s) for s in FIXED + progs]
    lines, st = conc.explore_all(c, jobs)
    conc.account(c, st, lines)
    c.log("explored: %d executions, %d distinct" % (c.cov["executions_run"], len(lines)))
    c.cov["profiles_printed"] = sum(x.count('"FinE"') for x in lines)
    c.cov["samples_judged"] = sum(int(n) for x in lines for n in re.findall(r'"samples":(\d+)', x))
    for x in lines[::max(1, len(lines) // 4)][:4]:
        d = json.loads(x)
        c.sample({"scenario": d["scn"], "how": d["how"], "events": [e["e"] + str(e.get("k", "")) + "@" + str(e["t"]) for e in d["ev"]],
                  "profiles": [e["lines"] for e in d["ev"] if e["e"] == "FinE"]})
    conc.judge(c, "ProfTrace", lines, {}, chunks=8)
    c.assumptions = ["StartProfiling and FinishProfiling are called on the same thread, as documented",
                     "schedules are explored at synchronisation operations and recorded events, under sequential consistency; "
                     "happens-before races are computed from declared memory orders; a process has 8 thread-specific keys instead of 1024"]
