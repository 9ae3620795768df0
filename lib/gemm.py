"""Generating histories of GEMM calls with TLC, replaying them on the real library (every back end),
and submitting the recorded behaviours to the GemmTrace specification."""
import json, os, re, subprocess, time
import vlib


MAX_FAULTS = 6
ARM = ("aarch64", "armhf", "aarch64_dotprod")


def histories(c, profile, num, hlen=6, big=1, seed=0):
    r = c.tlc("GemmGen", workers=1, env={"PROFILE": profile, "HLEN": str(hlen), "BIG": str(big)},
              extra=["-simulate", "num=%d" % num, "-depth", str(hlen + 3), "-seed", str(c.seed * 1000 + seed)], count=False)
    res = []
    for m in re.findall(r'"HIST (\[.*\])"', r["out"]):
        res.append(json.loads(m.replace('\\"', '"')))
    if len(res) < num // 2:
        raise vlib.CheckError("TLC generated %d histories:\n%s" % (len(res), r["out"][-2000:]))
    return res


def tlc_histories(c, module, num, hlen, env, depth=None, seed=0, floor=0.5):
    """Histories printed by a generator module under TLC -simulate."""
    e = {"HLEN": str(hlen)}
    e.update(env)
    r = c.tlc(module, workers=1, env=e, count=False,
              extra=["-simulate", "num=%d" % num, "-depth", str(depth or hlen + 3), "-seed", str(c.seed * 1000 + seed)])
    res = [json.loads(m.replace('\\"', '"')) for m in re.findall(r'"HIST (\[.*\])"', r["out"])]
    if len(res) < num * floor:
        raise vlib.CheckError("TLC generated %d histories:\n%s" % (len(res), r["out"][-2000:]))
    return res


def text(h):
    return ";".join(" ".join(map(str, op)) for op in h)


def recorded(out):
    """The recorded histories.  A line the library's memory errors have garbled, like a death outside a call, is
    blamed on the last call recorded before it."""
    if not os.path.exists(out):
        return [], False
    raw = open(out, errors="replace").read().splitlines()
    good = []
    for x in raw:
        try:
            json.loads(x)
            good.append(x)
        except ValueError:
            return blame(good, x), True
    return good, False


def blame(lines, garbled=""):
    if lines and '"fault":0' in lines[-1]:
        k = lines[-1].rindex('"fault":0')
        return lines[:-1] + [lines[-1][:k] + '"fault":9' + lines[-1][k + 9:]]
    m = re.search(r'"op":"[A-Z]"', garbled)
    if m:
        return lines + ['{"line":0,"ev":[{%s,"fault":9}]}' % m.group(0)]
    return None


def resumable(cmd, inp, out, args, total, timeout):
    """Runs a replay harness; when a library thread crashes it stops with 77 and goes on with the next history."""
    start, t0 = 0, time.time()
    for _ in range(MAX_FAULTS):
        a = cmd + [inp, out] + args + ([str(start)] if start else [])
        p = vlib.sh(a, timeout=max(5, timeout - (time.time() - t0)), ok=None)
        lines, garbled = recorded(out)
        if p.returncode == 0 and not garbled:
            return lines
        if lines is None:
            raise vlib.CheckError("harness output unreadable: %s" % " ".join(a))
        if garbled:
            return lines
        n = len(lines)
        if p.returncode in (78, -4, -6, -7, -8, -11):     # died outside a call: what the call before it left behind
            lines = blame(lines)
            if lines is None:
                raise vlib.CheckError("harness failed (%d): %s\n%s" % (p.returncode, " ".join(a), p.stderr[-2000:]))
            open(out, "w").write("\n".join(lines) + "\n")
        elif p.returncode != 77 or n <= start:
            raise vlib.CheckError("harness failed (%d): %s\n%s" % (p.returncode, " ".join(a), p.stderr[-2000:]))
        elif n >= total:
            return lines
        start = n
        if start >= total:
            return lines
    # enough calls crashed: what was recorded so far is judged
    return recorded(out)[0]


def replay_with(c, src, name, cfg, flags, hs, args, timeout=400, libs=("-lpthread",), opt="-O1", extra_srcs=()):
    """Builds one harness for one back end, replays histories on it, returns the recorded lines."""
    exe = c.compile(name, [os.path.join(vlib.HARNESS, src)] + list(extra_srcs), config=cfg, flags=flags, opt=opt, libs=libs)
    inp, out = c.path(name + ".in"), c.path(name + ".out")
    open(inp, "w").write("\n".join(h if isinstance(h, str) else text(h) for h in hs) + "\n")
    lines = resumable(vlib.CONFIGS[cfg][2] + [exe], inp, out, [str(a) for a in args], len(hs), timeout)
    os.unlink(out)
    os.unlink(exe)
    return [("%s/%s" % (cfg, name), x) for x in lines]


def judge_with(c, module, recs, env=None, chunks=6, describe="recorded behaviour"):
    lines = [x for _, x in recs]
    rej = c.validate(module, lines, env=env, chunks=chunks, mem="2g")
    for (i, l, out) in rej:
        d = json.loads(lines[i])
        e = d["ev"][l - 1] if 0 < l <= len(d["ev"]) else {}
        c.violation("%s rejected by %s on %s at event %d: %s" % (describe, module, recs[i][0], l, json.dumps(e)[:1500]),
                    {"where": recs[i][0], "history": d["ev"], "rejected_at": l})
    for lab, x in recs[:: max(1, len(recs) // 6)]:
        c.sample({"where": lab, "behaviour": x[:400]})
    c.cov["back_ends"] = sorted(set(lab for lab, _ in recs))
    return rej


def replay(c, jobs, timeout=400, flags=(), tolerate=False):
    """jobs: list of (config, variant, histories, samples). Returns [(label, json line)]."""
    def one(i):
        cfg, var, hs, samples, opt = jobs[i]
        try:
            exe = c.compile("gemm_%s_%d_%d" % (cfg, var, i), [os.path.join(vlib.HARNESS, "gemm.cc")], config=cfg,
                            flags=["-DVARIANT=%d" % var] + list(flags), opt=opt)
        except vlib.CheckError:
            if not tolerate:
                raise
            c.cov["not_built"] = c.cov.get("not_built", 0) + 1
            return []
        inp, out = c.path("in_%d" % i), c.path("out_%d" % i)
        open(inp, "w").write("\n".join(text(h) for h in hs) + "\n")
        lines = resumable(vlib.CONFIGS[cfg][2] + [exe], inp, out, [str(samples), str(c.seed + i)], len(hs), timeout)
        os.unlink(out)
        os.unlink(exe)
        return [("%s/variant%d" % (cfg, var), x) for x in lines]
    res = []
    for ls in vlib.par([lambda i=i: one(i) for i in range(len(jobs))]):
        res += ls
    c.cov["calls_replayed"] = c.cov.get("calls_replayed", 0) + sum(x.count('"op":"G"') for _, x in res)
    return res


def judge(c, recs, aspect, chunks=8):
    lines = [x for _, x in recs]
    rej = c.validate("GemmTrace", lines, env={"ASPECT": aspect}, chunks=chunks, mem="2g")
    for (i, l, out) in rej:
        d = json.loads(lines[i])
        e = dict(d["ev"][l - 1]) if 0 < l <= len(d["ev"]) else {}
        e.pop("full", None)
        for p in e.get("pts", []):
            if len(p["a"]) > 12:
                p["a"], p["b"] = p["a"][:12] + ["..."], p["b"][:12] + ["..."]
        c.violation("recorded call rejected by GemmTrace (%s) on %s: %s" % (aspect, recs[i][0], json.dumps(e)[:1200]),
                    {"back_end": recs[i][0], "history": d["ev"], "rejected_at": l})
    for lab, x in recs[:: max(1, len(recs) // 6)]:
        c.sample({"back_end": lab, "behaviour": x[:400]})
    labs = sorted(set(lab for lab, _ in recs))
    c.cov["back_ends"] = labs
    return rej
