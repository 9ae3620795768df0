"""Exploring the schedules of a controlled harness and submitting the recorded executions to TLC."""
import json, os, re
import vlib


def explore(c, exe, jobs, timeout=600, runner=()):
    """jobs: list of (mode, bound, max_runs, max_s, scenario). Returns (lines, stats)."""
    return explore_all(c, [(exe, runner) + tuple(j) for j in jobs], timeout)


def explore_all(c, jobs, timeout=600):
    """jobs: list of (exe, runner, mode, bound, max_runs, max_s, scenario). Returns (lines, stats)."""
    def one(i):
        exe, runner, mode, bound, runs, secs, scn = jobs[i]
        out = c.path("ev_%d_%s.ndjson" % (i, os.path.basename(exe)))
        p = vlib.sh(list(runner) + [exe, out, mode, str(bound), str(runs), str(secs), str(c.seed * 101 + i), scn], timeout=timeout)
        st = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
        lines = open(out).read().splitlines()
        os.unlink(out)
        return lines, st
    lines, stats, seen = [], [], set()
    for ls, st in vlib.par([lambda i=i: one(i) for i in range(len(jobs))]):
        for x in ls:
            k = x[x.index('"ev":'):] + x[:x.index('"how"')]
            if k not in seen:
                seen.add(k)
                lines.append(x)
        stats += st
    return lines, stats


def spec_schedules(c, num, depth=600):
    """(batch history, schedule) pairs generated by TLC from PoolSched."""
    r = c.tlc("PoolSched", workers=1, extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(c.seed)],
              count=False)
    res = []
    for m in re.findall(r'"SCHED (\{.*\})"', r["out"]):
        d = json.loads(m.replace('\\"', '"'))
        if d["hist"]:
            res.append((d["hist"], d["sched"]))
    if not res:
        raise vlib.CheckError("TLC generated no schedules:\n" + r["out"][-2000:])
    return res


def hint_jobs(c, scheds, kinds="EL"):
    """Groups schedules by batch history and writes hint files."""
    by = {}
    for i, (h, s) in enumerate(scheds):
        scn = ",".join(kinds[(i + j) % len(kinds)] + str(n) for j, n in enumerate(h))
        by.setdefault(scn, []).append(s)
    jobs = []
    for n, (scn, ss) in enumerate(sorted(by.items())):
        f = c.path("hint_%d" % n)
        with open(f, "w") as fh:
            for s in ss:
                fh.write(" ".join(map(str, s)) + " -1\n")
        jobs.append(("hint:" + f, 0, 0, 0, scn))
    return jobs


def account(c, stats, lines):
    c.cov["executions_run"] = c.cov.get("executions_run", 0) + sum(s["runs"] for s in stats)
    c.cov["scheduling_decisions"] = c.cov.get("scheduling_decisions", 0) + sum(s["decisions"] for s in stats)
    c.cov["distinct_executions"] = c.cov.get("distinct_executions", 0) + len(lines)
    c.cov["schedule_spaces_exhausted"] = c.cov.get("schedule_spaces_exhausted", 0) + sum(1 for s in stats if s["complete"])


def judge(c, module, lines, env, chunks=6, describe="execution"):
    rej = c.validate(module, lines, env=env, chunks=chunks)
    for (i, l, out) in rej:
        d = json.loads(lines[i])
        ev = d["ev"]
        e = ev[l - 1] if 0 < l <= len(ev) else None
        hist = " ".join(x["e"] + ("%s" % x.get("k", x.get("b", ""))) + "@" + str(x["t"]) for x in ev[:l])
        c.violation("%s rejected by %s at event %d %s; scenario %s; events so far: %s" % (
            describe, module, l, json.dumps(e), d["scn"], hist[-1500:]),
            {"scenario": d["scn"], "schedule": d["sched"], "events": ev, "rejected_at": l, "harness": "rebuild with checks of this property; run: prog OUT replay:FILE 0 0 0 1 SCENARIO"})
    return rej
