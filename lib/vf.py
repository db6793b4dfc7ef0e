"""Shared machinery: build the harness from /repo, run TLC, replay scripts, validate traces."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
JOBS = 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def fresh(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLADEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"


# ---------------------------------------------------------------- build
def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def build():
    """(re)build the harness against /repo's working tree; never trust time stamps"""
    target = os.path.join(HARNESS, "target")
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "repo.hash")
    hh = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != hh:
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("libfranka"):
                    shutil.rmtree(os.path.join(fp, d))
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, RUSTFLAGS="")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stdout[-4000:])
    open(stamp, "w").write(hh)
    lib = os.path.join(target, "model.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", lib + ".new", os.path.join(HARNESS, "model.c")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("model library: " + r.stdout[-2000:])
    os.replace(lib + ".new", lib)
    cls = os.path.join(target, "tla")
    os.makedirs(cls, exist_ok=True)
    r = subprocess.run(["javac", "-d", cls, "-cp", TLAJAR, os.path.join(SPEC, "java", "F64.java")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("F64.java: " + r.stdout[-2000:])
    return os.path.join(target, "debug", "fharness")


# ---------------------------------------------------------------- TLC
STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg=None, env=None, args=(), workers=4, timeout=800, name="tlc", heap=None):
    md = fresh("md_" + name)
    e = dict(os.environ)
    e.update(env or {})
    cp = ":".join([os.path.join(HARNESS, "target", "tla"), TLAJAR, TLADEPS])
    cmd = ["java", heap or "-Xmx6g", "-Xss32m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + md, "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers), "-config", cfg or module + ".cfg", *args, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        shutil.rmtree(md, ignore_errors=True)
        raise ToolError("TLC timed out on %s" % module)
    shutil.rmtree(md, ignore_errors=True)
    m = STAT.findall(r.stdout)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.returncode, r.stdout, gen, dist


def tail(out, n=40):
    return "\n".join(x for x in out.splitlines() if not re.match(r"^(Semantic|Linting|Parsing)", x))[-6000:]


def model_check(module, cfg, stats, name, workers=JOBS, timeout=800, env=None, args=()):
    rc, out, gen, dist = tlc(module, cfg, env=env, workers=workers, name=name, timeout=timeout, args=args)
    if rc != 0:
        raise ToolError("model %s/%s: TLC exit %d\n%s" % (module, cfg, rc, tail(out)))
    stats["states"] += dist
    stats["transitions"] += gen
    stats["models"].append({"module": module, "cfg": cfg, "states": dist, "transitions": gen})


def generate(fam, stats, name, seed, simulate=0, depth=200, timeout=600, workers=JOBS, env=None, module="FrankaGen"):
    """all scripts of a family (breadth first) or `simulate` random ones"""
    args = []
    if simulate:
        args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed)]
        workers = 1
    e = {"FAM": fam}
    e.update(env or {})
    rc, out, gen, dist = tlc(module, env=e, args=args, workers=workers, name=name, timeout=timeout)
    scripts = []
    for line in out.splitlines():
        i = line.find("SCRIPT ")
        if i >= 0:
            s = line[i + 7:].rstrip().rstrip('"').replace('\\"', '"')
            scripts.append(json.loads(s))
    if not scripts or (rc != 0):
        raise ToolError("generation of %s failed (exit %d)\n%s" % (fam, rc, tail(out)))
    stats["states"] += dist
    stats["transitions"] += gen
    uniq = {json.dumps(s, sort_keys=True): s for s in scripts}
    return [uniq[k] for k in sorted(uniq)]


# ---------------------------------------------------------------- replay
def replay(binary, scenarios, name):
    """run every scenario against the real library; one trace each"""
    d = fresh("replay_" + name)
    n = max(1, min(JOBS, len(scenarios)))
    shards = [scenarios[i::n] for i in range(n)]

    def one(i):
        todo, res, crashes = list(shards[i]), [], 0
        while todo:
            sc, out = os.path.join(d, "sc%d" % i), os.path.join(d, "out%d" % i)
            with open(sc, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            try:
                r = subprocess.run([binary, "run", sc, out, str(i), os.path.join(d, "scratch%d" % i)],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700,
                                   env=dict(os.environ, RUST_BACKTRACE="0"))
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                raise ToolError("harness timed out")
            got = [json.loads(x) for x in open(out)] if os.path.exists(out) else []
            res += got
            if rc in (0, 3):  # 3: several scenarios hung for real, the rest was not run
                break
            if rc == 2:
                raise ToolError("harness exit %d: %s" % (rc, err[-2000:]))
            # the process died while running this scenario: that is an observation about the library
            crashes += 1
            s = todo[len(got)]
            res.append({"rt": {"kernel": False, "priomax": 99, "setsched": 0, "mlockall": 0}, "id": s["id"], "dev": s.get("dev", "robot"),
                        "fam": s.get("fam", ""), "ev": [{"e": "crash", "rc": rc}]})
            todo = todo[len(got) + 1:] if crashes < 4 else []
        return res

    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(n)))
    traces = {}
    for part in res:
        for t in part:
            traces[t["id"]] = t
    shutil.rmtree(d, ignore_errors=True)
    return [traces[s["id"]] for s in scenarios if s["id"] in traces]


# ---------------------------------------------------------------- validation
def validate(traces, focus, stats, name, module="FrankaTrace", env=None):
    """indices of traces the specification rejects"""
    d = fresh("val_" + name)
    n = max(1, min(JOBS, (len(traces) + 49) // 50))
    idx = [list(range(len(traces)))[i::n] for i in range(n)]

    def one(i):
        ids, bad, g, ds = list(idx[i]), [], 0, 0
        while ids:
            p = os.path.join(d, "t%d.ndjson" % i)
            with open(p, "w") as f:
                for k in ids:
                    f.write(json.dumps({x: y for x, y in traces[k].items() if x != "tlcerror"}) + "\n")
            e = {"TRACES": p, "FOCUS": focus, "VERBOSE": "0"}
            e.update(env or {})
            rc, out, gen, dist = tlc(module, env=e, workers=1, name="val_%s_%d" % (name, i), heap="-Xmx3g")
            done = {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', out)}
            g, ds = g + gen, ds + dist
            if rc == 0:
                return bad + [ids[k] for k in range(len(ids)) if (k + 1) not in done], g, ds
            # the specification cannot even be evaluated on a trace of unexpected shape: set it aside
            m = re.findall(r"/\\ tr = (\d+)", out)
            if re.search("StackOverflow|OutOfMemory|out of memory|Could not create|insufficient memory", out):
                raise ToolError("validation failed (exit %d)\n%s" % (rc, tail(out)))
            if not m or len(bad) >= 6:
                if bad:
                    return bad, g, ds
                raise ToolError("validation failed (exit %d)\n%s" % (rc, tail(out)))
            k = int(m[-1]) - 1
            traces[ids[k]]["tlcerror"] = tail(out)[-1200:]
            if os.environ.get("VFDEBUG"): log(traces[ids[k]]["tlcerror"])
            bad.append(ids[k])
            del ids[k]
        return bad, g, ds

    bad = []
    with ThreadPoolExecutor(n) as ex:
        for b, gen, dist in ex.map(one, range(n)):
            stats["states"] += dist
            stats["transitions"] += gen
            bad += b
    shutil.rmtree(d, ignore_errors=True)
    return sorted(bad)


def explain(trace, focus, name, module="FrankaTrace", env=None):
    """how far the specification can follow a rejected trace"""
    d = fresh("exp_" + name)
    p = os.path.join(d, "t.ndjson")
    open(p, "w").write(json.dumps({k: v for k, v in trace.items() if k != "tlcerror"}) + "\n")
    e = {"TRACES": p, "FOCUS": focus, "VERBOSE": "1"}
    e.update(env or {})
    rc, out, _, _ = tlc(module, env=e, workers=1, name="exp_" + name)
    at = re.findall(r'<<"AT", \d+, (\d+), (.*)>>', out)
    shutil.rmtree(d, ignore_errors=True)
    last = max([int(a[0]) for a in at], default=1) - 1
    ev = trace["ev"]
    return {"accepted_events": last, "rejected_event": ev[last] if last < len(ev) else "end of trace",
            "spec_state": ([a[1] for a in at if int(a[0]) == last + 1] + re.findall(r'"SPEC %d (.*)"' % (last + 1), out))[-4:], "tlc": tail(out)[-800:] if rc != 0 else ""}


# ---------------------------------------------------------------- one check run
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.stats = {"states": 0, "transitions": 0, "traces": 0, "samples": [], "models": [], "families": []}
        self.violations, self.known, self.timing = [], [], {}
        self.rng = random.Random("%s/%s" % (pid, seed))

    def quick(self):
        return self.tier == "quick"

    def note(self, label, t):
        self.timing[label] = round(self.timing.get(label, 0) + time.time() - t, 1)

    def violation(self, scenario, trace, why):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        json.dump({"property": self.pid, "scenario": scenario, "trace": trace, "why": why}, open(p, "w"), indent=1)
        self.violations.append({"replay": p, "why": why})
        log("violation:", json.dumps(why)[:1500])


GOODLIB = os.path.join(HARNESS, "target", "model.so")


def subst(x):
    if isinstance(x, dict):
        return {k: subst(v) for k, v in x.items()}
    if isinstance(x, list):
        return [subst(v) for v in x]
    if isinstance(x, str) and x.startswith("LIB:"):
        return os.path.join(HARNESS, "target", "models", x[4:])
    return GOODLIB if x == "GOOD" else x


def broken_models():
    """stand-in libraries that lack one function, and files that are no library at all"""
    d = os.path.join(HARNESS, "target", "models")
    os.makedirs(os.path.join(d, "dir"), exist_ok=True)
    open(os.path.join(d, "empty"), "w").close()
    open(os.path.join(d, "text"), "w").write("not a library\n")
    syms = re.findall(r"#ifndef NO_(\w+)", open(os.path.join(HARNESS, "model.c")).read())

    def one(s):
        return subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-DNO_" + s, "-o", os.path.join(d, "no_" + s), os.path.join(HARNESS, "model.c")]).returncode
    with ThreadPoolExecutor(JOBS) as ex:
        if any(ex.map(one, syms)):
            raise ToolError("model libraries")


def run_and_judge(ctx, binary, scenarios, name, focus, module="FrankaTrace", env=None):
    for i, s in enumerate(scenarios):
        s["id"] = i
    t = time.time()
    traces = replay(binary, scenarios, name)
    ran = {x["id"] for x in traces}
    scenarios = [x for x in scenarios if x["id"] in ran]
    ctx.note("replay", t)
    t = time.time()
    bad = validate(traces, focus, ctx.stats, name, module, env)
    ctx.note("validate", t)
    ctx.stats["traces"] += len(traces)
    if len(ctx.stats["samples"]) < 3 and traces:
        k = ctx.rng.randrange(len(traces))
        ctx.stats["samples"].append({"family": traces[k].get("fam", name), "steps": scenarios[k].get("steps", [])[:30], "events": len(traces[k]["ev"])})
    if bad:
        # confirm: the same scenario must be rejected again on a second, independent run
        pick = bad[:24]
        again = [dict(scenarios[k]) for k in pick]
        for i, s in enumerate(again):
            s["id"] = i
        tr2 = replay(binary, again, name + "_again")
        pick = [pick[t["id"]] for t in tr2]
        bad2 = validate(tr2, focus, ctx.stats, name + "_again", module, env)
        log("%s: %d rejected, %d of %d confirmed" % (name, len(bad), len(bad2), len(pick)))
        for k in bad2[:3]:
            ctx.violation(scenarios[pick[k]], tr2[k], explain(tr2[k], focus, name, module, env))
        if not bad2:
            log("unconfirmed rejections (ignored):", json.dumps(explain(traces[pick[0]], focus, name, module, env))[:800])
    return traces


# message ids start anywhere in the 64 bit range
BASES = [{}, {"base": "4294967290"}, {}, {"base": "18446744073700000000"}, {"base": "2147483640"}, {}, {"base": "9007199254740990"}, {"base": "4294967296000"}]


def family(ctx, binary, fam, n, focus=None, sim=0, depth=300, vary=None, set=None, module="FrankaTrace", keep=None, gen="FrankaGen", env=None):
    """generate a family, sample n scripts, replay and judge them"""
    t = time.time()
    scripts = generate(fam, ctx.stats, "%s_%s" % (ctx.pid, fam), ctx.seed, simulate=sim, depth=depth, module=gen, env=env)
    ctx.note("generate", t)
    total = len(scripts)
    if keep:
        scripts = [s for s in scripts if keep(s)]
    if len(scripts) > n:
        scripts = ctx.rng.sample(scripts, n)
    out = []
    for i, s in enumerate(scripts):
        s = subst(s)
        s.update(set or {})
        if module in ("FrankaTrace", "StateTrace") and vary is None:
            s.update(BASES[i % len(BASES)])
        if vary:
            s.update(vary[i % len(vary)])
        out.append(s)
    ctx.stats["families"].append({"family": fam, "scripts": total, "replayed": len(out), "how": "random walks" if sim else "all within bounds"})
    run_and_judge(ctx, binary, out, "%s_%s" % (ctx.pid, fam), focus or ctx.pid, module)
