import json, os, vlib

SCALAR = [("x86_default", 0), ("x86_default", 1), ("aarch64", 0), ("armhf", 1)]
SIMD = [(c, p) for c in ("x86_sse4", "x86_avx2", "aarch64", "armhf") for p in (2, 3)]


def one(c, cfg, part):
    exe = c.compile("fixp_%s_%d" % (cfg, part), [os.path.join(vlib.HARNESS, "fixp.cc")], cfg, flags=["-DPART=%d" % part],
                    opt="-O2" if c.thorough else "-O1")
    qemu = bool(c.runner(cfg))
    n = (2000000 if c.thorough else 100000) // (4 if qemu else 1)
    exh = "1" if c.thorough and not qemu and part == 3 else "0"
    keep = {0: 12, 1: 60, 2: 5, 3: 5}[part]
    p = vlib.sh(c.runner(cfg) + [exe, "x", str(c.seed), str(n), str(keep if not c.thorough else 1), exh],
                timeout=880 if not c.thorough else 20000, ok=(0, 77))
    lines = [x for x in p.stdout.splitlines() if '"ev"' in x]
    done = json.loads(p.stdout.splitlines()[-1]).get("done", 0) if p.returncode == 0 else 0
    return cfg, part, lines, done


def run(c):
    res = vlib.par([lambda: c.model("FixedPointAlg", os.path.join(vlib.SPEC, "FixedPointAlg8.cfg" if c.thorough else "FixedPointAlg.cfg"), workers=2)] + [lambda a=a: one(c, *a) for a in SIMD + SCALAR])[1:]
    lines, where = [], []
    for cfg, part, ls, done in res:
        lines += ls
        where += [cfg] * len(ls)
        c.cov["lane_operations_" + cfg] = c.cov.get("lane_operations_" + cfg, 0) + done
    c.cov["events_judged"] = sum(x.count('"op":') for x in lines)
    c.log("recorded", c.cov["events_judged"], "events")
    c.sample(json.loads(lines[0])["ev"][0])
    for i, l, out in c.validate("FixedPointTrace", lines, chunks=vlib.NCPU, mem="2g"):
        t = json.loads(lines[i])
        e = t["ev"][l - 1]
        c.violation("%s (%s): %s" % (t["src"], where[i], json.dumps(e)), {"config": where[i], "event": e})
    c.assumptions = ["overflowing Add/Sub/Mul/Neg/ShiftLeft are undefined or implementation-defined in the library and not judged",
                     "MSA and WebAssembly back ends cannot be compiled here",
                     "operands that agree with the harness's own 128-bit definition are only sampled for the specification"]
