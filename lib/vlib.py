"""Shared machinery of the checks: building harnesses from /repo, running TLC, validating recorded
behaviours against the specification, evidence and verdicts.

Outcomes of a check: exit 0 (held on everything explored), exit 1 with a VIOLATION line, or any
other exit status (the check itself failed)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

CONFIGS = {
    # name: (compiler, flags, runner prefix)
    "x86_default": ("g++", [], []),
    "x86_sse4": ("g++", ["-msse4.1"], []),
    "x86_avx2": ("g++", ["-mavx2", "-mfma", "-DGEMMLOWP_ENABLE_AVX2"], []),
    "aarch64": ("aarch64-linux-gnu-g++", [], ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"]),
    "aarch64_dotprod": ("aarch64-linux-gnu-g++", ["-march=armv8.2-a+dotprod", "-DGEMMLOWP_DOTPROD_KERNEL"],
                        ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"]),
    "armhf": ("arm-linux-gnueabihf-g++", ["-mfpu=neon"], ["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"]),
}
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in
        "malloc free calloc realloc posix_memalign memalign aligned_alloc memcpy memset memmove".split())]


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None, ok=(0,)):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=e, cwd=cwd, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: " + " ".join(map(str, cmd))[:300])
    if ok is not None and p.returncode not in ok:
        raise CheckError("command failed (%d): %s\n%s\n%s" % (
            p.returncode, " ".join(map(str, cmd))[:600], p.stdout[-1500:], p.stderr[-3000:]))
    return p


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.viol = []
        self.level = "model_checking"
        self.exhaustive = None
        self.known = load_known(pid)

    def path(self, *a):
        return os.path.join(self.work, *a)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ building
    def compile(self, out, srcs, config="x86_default", flags=(), inc=(), libs=("-lpthread",), std="-std=gnu++11",
                repo=None, opt="-O2"):
        cc, cflags, _ = CONFIGS[config]
        o = self.path(out)
        cmd = [cc, std, opt, "-g1", "-w"] + cflags + list(flags) + ["-I" + (repo or REPO), "-I" + HARNESS]
        cmd += ["-I" + i for i in inc] + list(srcs) + ["-o", o] + list(libs)
        sh(cmd, timeout=800)
        return o

    def runner(self, config):
        return CONFIGS[config][2]

    def scratch_repo(self):
        """A copy of /repo's sources whose busy-wait bursts are short (so that giving up busy-waiting
        is cheap to execute); anything else is byte-identical."""
        d = self.path("repo")
        if os.path.isdir(d):
            return d
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns("_build", ".git", "*.o"), symlinks=True)
        f = os.path.join(d, "internal/multi_thread_gemm.h")
        s = open(f).read()
        s2 = re.sub(r"(kMaxBusyWaitNOPs\s*=\s*)[^;]*;", r"\g<1>256;", s)
        open(f, "w").write(s2)
        return d

    def build_conc(self, name, src, extra=(), flags=(), opt="-O1", config="x86_default"):
        """Links a harness with the controlled-execution runtime rt/. Run it under self.runner(config)."""
        r = self.scratch_repo()
        cc, cflags, _ = CONFIGS[config]
        rt = self.path("rt_%s.o" % cc)
        objs = []
        jobs = [] if os.path.exists(rt) else [
            [cc, "-std=c++17", "-O2", "-w", "-c", os.path.join(VERIF, "rt/rt.cc"), "-o", rt]]
        for i, s in enumerate([src] + list(extra)):
            o = self.path("%s_%d.o" % (name, i))
            objs.append(o)
            jobs.append([cc, "-std=gnu++11", opt, "-g", "-w", "-fsanitize=thread"] + cflags + list(flags) +
                        ["-I" + r, "-I" + HARNESS, "-c", s.replace("$REPO", r), "-o", o])
        par([lambda j=j: sh(j, timeout=800) for j in jobs])
        exe = self.path(name)
        sh([cc, "-o", exe] + objs + [rt] + WRAP)
        return exe

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=4, mem="3g", timeout=800, extra=(), count=True):
        """Runs TLC. Returns dict(ok, kind, out, states, distinct)."""
        md = tempfile.mkdtemp(dir=self.work, prefix="tlc_")
        cfg = cfg or os.path.join(SPEC, module + ".cfg")
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + md, "-Xmx" + mem, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        p = sh(cmd, timeout=timeout, env=env, cwd=md, ok=None)
        out = p.stdout + p.stderr
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        kind = None
        if "Model checking completed. No error has been found" in out or \
           ("-simulate" in extra and p.returncode == 0):
            kind = "ok"
        elif "Error: Deadlock reached" in out:
            kind = "deadlock"
        elif "is violated" in out or "Temporal properties were violated" in out:
            kind = "violated"
        elif "The first argument of Assert evaluated to FALSE" in out or "Assumption" in out and "is false" in out:
            kind = "assert"
        if kind is None:
            raise CheckError("TLC error on %s:\n%s" % (module, out[-4000:]))
        if count:
            self.states += dist
            self.transitions += max(gen, 0)
        return dict(ok=kind == "ok", kind=kind, out=out, states=dist, generated=gen, rc=p.returncode)

    def model(self, module, cfg=None, **kw):
        """The specification itself must satisfy its properties."""
        r = self.tlc(module, cfg, **kw)
        if not r["ok"]:
            raise CheckError("the specification %s is rejected by TLC (%s):\n%s" % (module, r["kind"], r["out"][-6000:]))
        self.log("model %s: %d distinct states, %d generated" % (module, r["states"], r["generated"]))
        return r

    def validate(self, module, lines, env=None, chunks=4, cfg=None, workers=1, what="trace", weight=None, mem="3g"):
        """lines: list of JSON texts, one recorded behaviour each. TLC decides for each whether the
        specification allows it; a rejection shows up as a deadlock with variables tr and l.
        Returns list of (line index, l, TLC output) of rejected behaviours (first per chunk)."""
        if not lines:
            raise CheckError("nothing recorded for " + module)
        n = max(1, min(chunks, len(lines)))
        parts = [list(range(i, len(lines), n)) for i in range(n)]

        def one(k):
            f = self.path("tr_%s_%d_%s.ndjson" % (module, k, hashlib.md5(repr(env).encode()).hexdigest()[:6]))
            with open(f, "w") as fh:
                for i in parts[k]:
                    fh.write(lines[i].rstrip("\n") + "\n")
            e = {"TRACES": f}
            e.update(env or {})
            r = self.tlc(module, cfg, env=e, workers=workers, mem=mem)
            os.unlink(f)
            if r["ok"]:
                return None
            last = r["out"]
            mt = re.findall(r"/\\ tr = (\d+)", last)
            ml = re.findall(r"/\\ l = (\d+)", last)
            if not mt:
                raise CheckError("cannot parse TLC rejection:\n" + last[-3000:])
            return (parts[k][int(mt[-1]) - 1], int(ml[-1]) if ml else 0, last)
        res = [x for x in par([lambda k=k: one(k) for k in range(n)]) if x]
        self.validated += len(lines) - len(res)
        # a rejection counts only if it repeats on that behaviour alone
        conf = []
        for (i, l, out) in res:
            f = self.path("confirm.ndjson")
            open(f, "w").write(lines[i].rstrip("\n") + "\n")
            e = {"TRACES": f}
            e.update(env or {})
            r = self.tlc(module, cfg, env=e, workers=1, count=False)
            if r["ok"]:
                raise CheckError("rejection of a %s did not repeat" % what)
            conf.append((i, l, out))
        return conf

    # ------------------------------------------------------------ verdicts
    def violation(self, desc, replay=None, tag="v"):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%s_%d.json" % (self.pid, tag, len(self.viol)))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": desc, "replay": replay}, f, indent=1)
        self.viol.append((desc, p))
        self.log("violation:", desc[:600])

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def known_finding(self, key):
        """True if the committed known-findings file lists this specific finding."""
        return self.known.get(key)

    def finish(self):
        cov = dict(self.cov)
        cov["states"] = self.states
        cov["transitions"] = self.transitions
        cov["traces_validated_against_impl"] = self.validated
        cov["samples"] = self.samples or ["none"]
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.cleanup()
        if self.viol:
            for desc, p in self.viol[:5]:
                print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, VERIF)), flush=True)
                print("  " + desc[:800], flush=True)
            return 1
        self.log("ok: %d states, %d behaviours validated" % (self.states, self.validated))
        return 0

    def cleanup(self):
        if os.environ.get("VF_KEEP"):
            print("kept", self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)


def par(fns, n=NCPU):
    with cf.ThreadPoolExecutor(max_workers=n) as ex:
        return [f.result() for f in [ex.submit(x) for x in fns]]


def load_known(pid):
    """known_findings.jsonl: {"property":..., "key":..., "what":..., "status": "known"|"fixed", ...}"""
    r = {}
    f = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d["property"] == pid and d.get("status") == "known":
                r[d["key"]] = d
    return r
