"""The machinery behind check.py: builds the harness against /repo, explores
the specification with TLC, performs what it explored on the real library and
checks what was recorded against the specification."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
PARTS = 8

class ToolError(Exception):
    """The check itself could not do its work (exit 2)."""

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.work = os.path.join(ROOT, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = 0
        self.violations = []      # (description, replay record)
        self.samples = []
        self.detail = {}
        self.t0 = time.time()
    def q(self, quick, thorough):
        return thorough if self.thorough else quick
    def note(self, k, v):
        self.detail[k] = v
    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

def source_hash():
    h = hashlib.sha256()
    for base in ("/repo/src", "/repo/Cargo.toml", os.path.join(HARNESS, "src")):
        for d, ds, fs in sorted(os.walk(base)) if os.path.isdir(base) else [(os.path.dirname(base), [], [os.path.basename(base)])]:
            ds.sort()
            for f in sorted(fs):
                h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    return h.hexdigest()

def build(ctx, release=False):
    # (cargo goes by time stamps; the content decides here)
    stamp = os.path.join(HARNESS, "target", "src.%s" % ("release" if release else "debug"))
    now = source_hash()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        subprocess.run(["cargo", "clean", "--offline", "--quiet", "-p", "fourleaf", "-p", "flharness"] + (["--release"] if release else []),
                       cwd=HARNESS, capture_output=True)
    cmd = ["cargo", "build", "--offline", "--quiet"] + (["--release"] if release else [])
    p = subprocess.run(cmd, cwd=HARNESS, capture_output=True, text=True)
    if p.returncode:
        raise ToolError("the harness does not build:\n" + p.stderr[-3000:])
    open(stamp, "w").write(now)
    return os.path.join(HARNESS, "target", "release" if release else "debug", "flharness")

def schema_binary(binary):
    """The program for the typed layer; its table of types must be the one
    the specification reads."""
    b = os.path.join(os.path.dirname(binary), "flschema")
    table = subprocess.run([b, "dump"], capture_output=True, text=True, check=True).stdout
    if table != open(os.path.join(SPEC, "schema.ndjson")).read():
        raise ToolError("spec/schema.ndjson is not the harness's table of types (tools/mkschema.sh writes it)")
    return b

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def harness(ctx, binary, args, what, timeout=600):
    """Runs the harness.  Returns (sessions, events), or None when the run
    itself showed a violation (the code hung or the process died)."""
    try:
        p = subprocess.run([binary] + args, capture_output=True, text=True, timeout=timeout,
                           preexec_fn=limits, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("harness timed out: " + " ".join(args))
    m = re.search(r"SESSIONS (\d+) EVENTS (\d+)", p.stdout)
    if p.returncode == 0 and m:
        return int(m.group(1)), int(m.group(2))
    if p.returncode == 9:
        l = [x for x in p.stdout.splitlines() if x.startswith("HANG")]
        ctx.violations.append(("an operation never ended (%s)" % what, {"hang": l[-1][:4000] if l else "?", "args": args}))
        return None
    if p.returncode == 8:
        l = [x for x in p.stdout.splitlines() if x.startswith("ALLOC")]
        ctx.violations.append(("an operation allocates without bound (%s)" % what, {"alloc": l[-1][:4000] if l else "?", "args": args}))
        return None
    if p.returncode < 0 or p.returncode == 134:
        l = [x for x in p.stdout.splitlines() if x.startswith("CRASH")]
        ctx.violations.append(("the process died of signal %d (%s)" % (-p.returncode, what),
                               {"crash": (l[-1] if l else p.stderr[-1000:]), "args": args}))
        return None
    raise ToolError("harness failed (%d): %s\n%s" % (p.returncode, " ".join(args), (p.stdout + p.stderr)[-2000:]))

def cfg(module, consts):
    return tlc.cfg_text(open(os.path.join(SPEC, module + ".cfg")).read(), consts)

def tset(xs):
    return "{" + ",".join('"%s"' % x for x in sorted(xs)) + "}"

def explore(ctx, module, consts, name, timeout=800, heap="3g"):
    """Model-check a module; its own violation is an error of ours.  The work
    is split over processes of one worker each (see InShard in the modules)."""
    base = "\n".join(l for l in open(os.path.join(SPEC, module + ".cfg")).read().splitlines()
                     if not re.match(r"CONSTANT (\w+) =", l) or re.match(r"CONSTANT (\w+) =", l).group(1) not in consts)
    ps = [tlc.start(module, tlc.cfg_text(base, dict(consts, Shard=k, Shards=PARTS)), os.path.join(ctx.work, "mc_%s_%d" % (name, k)), workers=1, heap=heap)
          for k in range(PARTS)]
    until = time.time() + timeout
    try:
        rs = [tlc.finish(p, max(1, until - time.time())) for p in ps]
    finally:
        for p in ps:
            if p.poll() is None: p.kill()
    for r in rs:
        if not r["ok"]:
            i = max(r["out"].find("Error:"), 0)
            raise ToolError("the model itself fails (%s %s):\n%s" % (module, consts, r["out"][i:i + 3000]))
    states, trans = sum(r["distinct"] for r in rs), sum(r["generated"] for r in rs)
    ctx.states += states
    ctx.transitions += trans
    ctx.log("explored %s: %d states, %d transitions" % (name, states, trans))
    return "\n".join(r["out"] for r in rs)

def histories(out):
    """The "H ..." lines printed by an exploration, without those another one
    continues."""
    hs = set()
    for l in out.splitlines():
        if l.startswith('"H '):
            hs.add(json.loads(l)[2:])
    recs = []
    for h in sorted(hs):
        j = json.loads(h)
        recs.append((json.dumps({k: v for k, v in j.items() if k != "ops"}, sort_keys=True),
                     [json.dumps(o, sort_keys=True) for o in j["ops"]], j))
    recs.sort(key=lambda r: (r[0], r[1]))
    res = []
    for k, r in enumerate(recs):
        if k + 1 < len(recs):
            n = recs[k + 1]
            if n[0] == r[0] and len(n[1]) > len(r[1]) and n[1][:len(r[1])] == r[1]:
                continue
        res.append(r[2])
    return res

def validate(ctx, module, files, consts, heap="3g", timeout=800, env=None):
    """Check recorded traces against a trace module; returns the reports."""
    files = [f for f in files if os.path.getsize(f)]
    def one(a):
        k, f = a
        e = {"TRACE": f}
        e.update(env or {})
        base = "\n".join(l for l in open(os.path.join(SPEC, module + ".cfg")).read().splitlines()
                         if not re.match(r"CONSTANT (\w+) =", l) or re.match(r"CONSTANT (\w+) =", l).group(1) not in consts)
        p = tlc.start(module, tlc.cfg_text(base, consts), os.path.join(ctx.work, "tv_%s_%d" % (module, k)), e, workers=1, heap=heap)
        return tlc.finish(p, timeout)
    with ThreadPoolExecutor(PARTS) as ex:
        rs = list(ex.map(one, enumerate(files)))
    reps = []
    for f, r in zip(files, rs):
        if not r["ok"] or "TOTAL" not in r["out"]:
            raise ToolError("trace checking failed (%s):\n%s" % (f, r["out"][max(r["out"].find("Error:"), 0):][:3000]))
        ctx.states += r["distinct"]
        ctx.transitions += r["generated"]
        reps += [dict(x, file=f) for x in tlc.reports(r["out"])]
    return reps

def find(files, sid):
    for f in files:
        for l in open(f):
            if ('"id":"%s"' % sid) in l or ('"id":%s,' % sid) in l:
                return json.loads(l)
    return None

def seen(ctx, reps, files, engine, extra=None):
    """Turn BAD reports into violations."""
    bad = [r for r in reps if r["kind"] == "BAD"]
    off = len(reps) - len(bad)
    for r in bad[:20]:
        s = find(files, r["id"])
        if s is not None and "ops" in s:
            s = dict(s, ops=s["ops"][:r["j"]])
        ctx.violations.append(("%s session %s, step %d: the code did %s" % (engine, r["id"], r["j"], str(r["ev"])[:300]),
                               {"engine": engine, "session": s, "step": r["j"], "observed": r["ev"],
                                "specified": str(r["state"])[:3000], **(extra or {})}))
    if len(bad) > 20:
        ctx.log("(%d deviations in total)" % len(bad))
    return off

# --------------------------------------------------------------- streams
READ_BE = ["cur", "curs", "tc", "tcn", "tcb", "sl", "sls", "mem", "mems"]
WRITE_BE = ["cur", "curs", "tc", "tcn", "mem", "mems"]
FEATURES = {"b_slice": {"tc", "tcn", "tcb", "sl", "sls"}, "b_slicemut": {"tc", "tcn"}, "b_ext": {"tcb", "sl", "sls"}}

def backends(ops):
    names = {o["o"] for o in ops}
    be = set(READ_BE)
    for n in names:
        be &= FEATURES.get(n, set(READ_BE))
    if names & {"b_seek", "seek", "x_back"}:
        be -= {"sl", "sls"}
    if any(n.startswith("w_") or n in ("b_write", "b_wall", "b_slicemut", "b_xwrite", "x_write") for n in names):
        be &= set(WRITE_BE)
    return sorted(be)

def stream_sessions(ctx, hs, per, seed, tag):
    """Sessions which perform the explored histories, each on `per` of the
    kinds of underlying streams that can."""
    rnd = random.Random(seed)
    out = []
    for k, h in enumerate(hs):
        be = backends(h["ops"])
        if not be:
            continue
        for b in rnd.sample(be, min(per, len(be))):
            s = {"id": "%s.%d.%s" % (tag, k, b), "be": b, "seek": False, "init": h["b"], "ops": h["ops"]}
            if b.startswith("mem"):
                s["caps"] = rnd.choice([[], [1], [2, 0], [1, 0, 3]])
            out.append(s)
    return out

def stream(ctx, aspects, mc=(), rand="", per=1, cap=None, release=False, tag="s", timeout=800):
    binary = build(ctx, release)
    sess = os.path.join(ctx.work, tag + ".sessions")
    nh = 0
    with open(sess, "w") as f:
        for prof, depth, size in mc:
            out = explore(ctx, "MCStream", {"Profile": '"%s"' % prof, "Depth": depth, "Size": size, "Emitting": "TRUE"}, tag + prof, timeout=timeout)
            hs = some(histories(out), cap, random.Random(ctx.seed))
            for s in stream_sessions(ctx, hs, per, ctx.seed, "mc-" + prof):
                f.write(json.dumps(s) + "\n")
                nh += 1
    pre = os.path.join(ctx.work, tag + ".tr")
    args = ["stream", "--seed", str(ctx.seed), "--parts", str(PARTS), "--out", pre]
    if nh: args += ["--replay", sess]
    if rand: args += ["--profile", rand]
    r = harness(ctx, binary, args, "stream sessions")
    if r is None:
        return
    ctx.log("performed %d sessions (%d from the explored graph), %d operations" % (r[0], nh, r[1]))
    files = [pre + ".%d" % k for k in range(PARTS)]
    reps = validate(ctx, "TraceStream", files, {"Aspects": tset(aspects)}, timeout=timeout)
    off = seen(ctx, reps, files, "stream", {"release": release})
    ctx.traces += r[0]
    ctx.events += r[1]
    ctx.note(tag, {"sessions": r[0], "from_explored_graph": nh, "operations": r[1], "off_aspect": off,
                   "profiles": rand, "explored": [list(m) for m in mc], "release": release})
    with open(files[0]) as f:
        for k, l in enumerate(f):
            if k in (0, 7):
                ctx.samples.append(json.loads(l[:200000]) if len(l) < 3000 else l[:1000])

# --------------------------------------------------------------- copying
def some(hs, cap, rnd):
    """All histories, or as many as are to be performed."""
    return hs if cap is None or len(hs) <= cap else rnd.sample(hs, cap)

def copying(ctx, aspects, mc=(), rand="", per=1, cap=None, release=False, tag="c", timeout=800):
    binary = build(ctx, release)
    sess = os.path.join(ctx.work, tag + ".sessions")
    nh = 0
    rnd = random.Random(ctx.seed)
    with open(sess, "w") as f:
        for depth, size in mc:
            out = explore(ctx, "MCCopy", {"Depth": depth, "Size": size, "Emitting": "TRUE"}, "copy", timeout=timeout)
            for k, h in enumerate(some(histories(out), cap, rnd)):
                be = [b for b in READ_BE if b != "tcn" and not (b in ("sl", "sls") and any(o["o"] == "b_seek" for o in h["ops"]))]
                for b in rnd.sample(be, per):
                    tail = [{"o": "commit", "at": "d"}, {"o": "seek", "at": "d", "w": "start", "u": [0, 0, 0]}] + [{"o": "ne", "at": "d"}] * 7
                    f.write(json.dumps({"id": "mc-copy.%d.%s" % (k, b), "be": b, "dst": rnd.choice(["cur", "tc", "mem"]), "init": h["b"], "dinit": [],
                                        "caps": rnd.choice([[], [1], [2, 0]]), "dcaps": rnd.choice([[], [1], [2, 0]]), "ops": h["ops"] + tail}) + "\n")
                    nh += 1
    pre = os.path.join(ctx.work, tag + ".tr")
    args = ["copy", "--seed", str(ctx.seed), "--parts", str(PARTS), "--out", pre]
    if nh: args += ["--replay", sess]
    if rand: args += ["--profile", rand]
    r = harness(ctx, binary, args, "copying sessions")
    if r is None:
        return
    ctx.log("performed %d copying sessions (%d from the explored graph), %d operations" % (r[0], nh, r[1]))
    files = [pre + ".%d" % k for k in range(PARTS)]
    reps = validate(ctx, "TraceCopy", files, {"Aspects": tset(aspects)}, timeout=timeout)
    off = seen(ctx, reps, files, "copy", {"release": release})
    ctx.traces += r[0]
    ctx.events += r[1]
    ctx.note(tag, {"sessions": r[0], "from_explored_graph": nh, "operations": r[1], "off_aspect": off,
                   "profiles": rand, "explored": [list(m) for m in mc], "release": release})
    with open(files[0]) as f:
        for k, l in enumerate(f):
            if k in (0, 7):
                ctx.samples.append(json.loads(l) if len(l) < 3000 else l[:1000])

# --------------------------------------------------------------- typed layer
def schema(ctx, aspects, mc=(), rand="", cap=None, release=False, tag="t", timeout=800):
    """Sessions with the typed layer: those of the explored graph of MCSchema
    (mc: profile, depth, size) and random ones (rand: profile:n,..)."""
    binary = schema_binary(build(ctx, release))
    sess = os.path.join(ctx.work, tag + ".sessions")
    nh = 0
    with open(sess, "w") as f:
        for prof, size in mc:
            out = explore(ctx, "MCSchema", {"Profile": '"%s"' % prof, "Size": size, "Emitting": "TRUE"}, tag + prof, timeout=timeout)
            for k, h in enumerate(some(histories(out), cap, random.Random(ctx.seed))):
                f.write(json.dumps({"id": "mc-%s.%d" % (prof, k), "seek": False, "ops": h["ops"], "caps": [[], [1], [2, 0]][k % 3]}) + "\n")
                nh += 1
    pre = os.path.join(ctx.work, tag + ".tr")
    args = ["--seed", str(ctx.seed), "--parts", str(PARTS), "--out", pre]
    if nh: args += ["--replay", sess]
    if rand: args += ["--profile", rand]
    r = harness(ctx, binary, args, "typed sessions")
    if r is None:
        return
    ctx.log("performed %d typed sessions (%d from the explored graph), %d operations" % (r[0], nh, r[1]))
    files = [pre + ".%d" % k for k in range(PARTS)]
    reps = validate(ctx, "TraceSchema", files, {"Aspects": tset(aspects)}, timeout=timeout)
    off = seen(ctx, reps, files, "schema", {"release": release})
    ctx.traces += r[0]
    ctx.events += r[1]
    ctx.note(tag, {"sessions": r[0], "from_explored_graph": nh, "operations": r[1], "off_aspect": off,
                   "profiles": rand, "explored": [list(m) for m in mc], "release": release})
    with open(files[0]) as f:
        for k, l in enumerate(f):
            if k in (0, 7):
                ctx.samples.append(json.loads(l) if len(l) < 3000 else l[:1000])

MIXED_BE = {"read": ["mem", "mems", "tcb"], "write": ["mem", "mems"]}

def mixed(ctx, aspects, mc=(), n=0, cap=None, tag="m", timeout=800):
    """Sessions with both layers on one stream: those of the explored graph of
    MCMixed (mc: profile, depth, size) and n random ones."""
    binary = schema_binary(build(ctx))
    sess = os.path.join(ctx.work, tag + ".sessions")
    borrows = [json.loads(l)["zc"] for l in open(os.path.join(SPEC, "schema.ndjson"))]
    nh = 0
    rnd = random.Random(ctx.seed)
    with open(sess, "w") as f:
        for prof, depth, size in mc:
            out = explore(ctx, "MCMixed", {"Profile": '"%s"' % prof, "Depth": depth, "Size": size, "Emitting": "TRUE"}, tag + prof, timeout=timeout)
            for k, h in enumerate(some(histories(out), cap, rnd)):
                be = rnd.choice(MIXED_BE[prof])
                for o in h["ops"]:
                    if o["o"] in ("t_de", "t_rec", "t_elem"):
                        o["zc"] = be == "tcb" and borrows[o["t"] - 1] and rnd.random() < 0.5
                        o["en"] = "smc" if be != "tcb" else "stb" if o["zc"] else "stc"
                f.write(json.dumps({"id": "mc-mixed-%s.%d.%s" % (prof, k, be), "be": be, "init": h["b"], "ops": h["ops"],
                                    "caps": rnd.choice([[], [1], [2, 0]]) if be != "tcb" else []}) + "\n")
                nh += 1
    pre = os.path.join(ctx.work, tag + ".tr")
    args = ["--seed", str(ctx.seed), "--parts", str(PARTS), "--out", pre]
    if nh: args += ["--replay-mixed", sess]
    if n: args += ["--profile", "mix:%d" % n]
    r = harness(ctx, binary, args, "mixed sessions")
    if r is None:
        return
    ctx.log("performed %d sessions of both layers (%d from the explored graph), %d operations" % (r[0], nh, r[1]))
    files = [pre + ".%d" % k for k in range(PARTS)]
    reps = validate(ctx, "TraceMixed", files, {"Aspects": tset(aspects)}, timeout=timeout)
    off = seen(ctx, reps, files, "mixed")
    ctx.traces += r[0]
    ctx.events += r[1]
    ctx.note(tag, {"sessions": r[0], "from_explored_graph": nh, "operations": r[1], "off_aspect": off,
                   "random": n, "explored": [list(m) for m in mc]})
    with open(files[0]) as f:
        for k, l in enumerate(f):
            if k in (0, 7):
                ctx.samples.append(json.loads(l) if len(l) < 3000 else l[:1000])

def wire(ctx, n, what, alphabet, maxlen):
    binary = build(ctx)
    explore(ctx, "MCWire", {"Alphabet": "{" + ",".join(map(str, alphabet)) + "}", "MaxLen": maxlen}, "wire")
    pre = os.path.join(ctx.work, "wire.tr")
    r = harness(ctx, binary, ["wire", "--n", str(n), "--what", what, "--seed", str(ctx.seed), "--parts", str(PARTS), "--out", pre], "integer calls")
    if r is None:
        return
    files = [pre + ".%d" % k for k in range(PARTS)]
    reps = validate(ctx, "TraceWire", files, {})
    seen(ctx, reps, files, "wire")
    ctx.traces += r[0]
    ctx.events += r[0]
    ctx.log("checked %d calls" % r[0])
    ctx.note("wire", {"calls": r[0], "what": what})
    with open(files[0]) as f:
        ctx.samples += [json.loads(l) for _, l in zip(range(3), f)]

# --------------------------------------------------------------- the end
def known(prop):
    """Findings recorded in known-findings.txt: "finding: property=<id> ..."."""
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            res.append((m.group(2), m.group(3)))
    return res

def finish(ctx, assumptions):
    real = []
    fs = known(ctx.prop)
    for d, rec in ctx.violations:
        key = json.dumps(rec, sort_keys=True)
        if any(k in key for k, _ in fs):
            continue
        real.append((d, rec))
    for k, d in fs:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, d))
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces,
                       "operations_validated": ctx.events, "samples": ctx.samples[:6] or ["none"],
                       **ctx.detail},
          "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(real)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, (d, rec) in enumerate(real[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (ctx.prop, n))
        json.dump({"property": ctx.prop, "what": d, **rec}, open(path, "w"), indent=1)
        print("  " + d)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    shutil.rmtree(ctx.work, ignore_errors=True)
    ctx.log("%s: %s; %d traces, %d states, %d transitions" % (ctx.prop, "VIOLATED" if real else "held", ctx.traces, ctx.states, ctx.transitions))
    return 1 if real else 0
