"""Running TLC and reading what it prints."""
import os, re, subprocess, shutil, tempfile, json

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")

class TlcError(Exception):
    pass

def cfg_text(base, consts):
    t = base
    for k, v in consts.items():
        t += "\nCONSTANT %s = %s" % (k, v)
    return t + "\n"

def start(module, cfg, work, env=None, workers=2, heap="3g", extra=(), stack="256m"):
    """Start TLC on spec/<module>.tla with the given configuration text."""
    os.makedirs(work, exist_ok=True)
    cfgp = os.path.join(work, module + ".cfg")
    open(cfgp, "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    out = open(os.path.join(work, "tlc.out"), "w")
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss" + stack,
           "-Djava.io.tmpdir=" + work, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE", "-config", cfgp]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=e, cwd=SPEC)
    p.outpath = out.name
    p.work = work
    return p

def finish(p, timeout=None):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise TlcError("TLC timed out: " + p.outpath)
    txt = open(p.outpath, errors="replace").read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
    r = {"out": txt, "rc": p.returncode,
         "generated": int(m.group(1)) if m else 0,
         "distinct": int(m.group(2)) if m else 0,
         "ok": "Model checking completed. No error has been found." in txt}
    return r

TUP = re.compile(r'^<<"(BAD|OFF|UNX)", (.*)>>$')

def reports(txt):
    """The <<"BAD", id, j, event, state>> tuples printed by a trace module
    (TLC breaks long values over several lines)."""
    res = []
    for m in re.finditer(r'^<<\s*"(BAD|OFF)",', txt, re.M):
        # up to the closing >> at the start of the next report or of a line
        end = txt.find("\n<<", m.end())
        e2 = txt.find(">>\n", m.end())
        chunk = txt[m.start(): end if end >= 0 else len(txt)]
        g = re.match(r'<<\s*"(BAD|OFF)",\s*("(?:[^"\\]|\\.)*"|-?\d+),\s*(\d+),\s*("(?:[^"\\]|\\.)*")(?:,\s*("(?:[^"\\]|\\.)*"))?', chunk, re.S)
        if not g:
            raise TlcError("unreadable report: " + chunk[:300])
        un = lambda s: json.loads(s) if s and s.startswith('"') else (int(s) if s else None)
        def unq(s):
            if s is None: return None
            if not s.startswith('"'): return int(s)
            return s[1:-1].replace('\\"', '"').replace("\\\\", "\\").replace("\n", " ")
        res.append({"kind": g.group(1), "id": unq(g.group(2)), "j": int(g.group(3)),
                    "ev": unq(g.group(4)), "state": unq(g.group(5))})
    return res
