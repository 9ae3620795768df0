import json, os, vlib

JOBS = [("x86_default", 0), ("x86_default", 1), ("armhf", 0), ("aarch64", 1)] + \
       [(c, p) for c in ("x86_sse4", "x86_avx2", "aarch64", "armhf") for p in (2, 3)]


def one(c, cfg, part):
    exe = c.compile("fmath_%s_%d" % (cfg, part), [os.path.join(vlib.HARNESS, "fmath.cc")], cfg, flags=["-DPART=%d" % part],
                    opt="-O2" if c.thorough else "-O1")
    qemu = bool(c.runner(cfg))
    n = (10000000 if c.thorough else 40000) // (5 if qemu else 1)
    samp = (100000 if part in (0, 2) else 2000) if c.thorough else (1500 if part in (0, 2) else 4000)
    p = vlib.sh(c.runner(cfg) + [exe, str(c.seed), str(n), str(samp)], timeout=880 if not c.thorough else 20000, ok=(0, 77))
    lines = [x for x in p.stdout.splitlines() if '"ev"' in x]
    return cfg, lines, json.loads(p.stdout.splitlines()[-1]).get("done", 0)


def run(c):
    lines, where = [], []
    for cfg, ls, done in vlib.par([lambda a=a: one(c, *a) for a in JOBS]):
        lines += ls
        where += [cfg] * len(ls)
        c.cov["evaluations_" + cfg] = c.cov.get("evaluations_" + cfg, 0) + done
    c.cov["events_judged"] = sum(x.count('"fn":') for x in lines)
    c.log("recorded", c.cov["events_judged"], "evaluations")
    c.sample(json.loads(lines[0])["ev"][0])
    for i, l, out in c.validate("FixedPointMathTrace", lines, chunks=vlib.NCPU, mem="2g"):
        t = json.loads(lines[i])
        e = t["ev"][l - 1]
        c.violation("%s (%s): %s" % (t["src"], where[i], json.dumps(e)), {"config": where[i], "event": e})
    c.assumptions = ["inputs outside the documented domain (positive numbers for exp, numbers outside (0,1) for the reciprocals) are not judged",
                     "exp needs at least two fractional bits, tanh three: formats with fewer are outside the library's domain",
                     "16-bit inputs are screened exhaustively, 32-bit inputs by edges and random numbers; the specification judges the worst of each format and a sample"]
