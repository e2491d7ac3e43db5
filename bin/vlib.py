"""Shared machinery of the checks: building from /repo, running harnesses, judging with TLC, evidence."""
import os, sys, json, subprocess, hashlib, time, shutil, re, glob, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness"); SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"): TIER = "quick"
NCPU = min(8, os.cpu_count() or 1)
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

class CheckError(Exception): pass

def say(*a):
    print(*a, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

# ------------------------------------------------------------------ build ---
def source_hash(extra=()):
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + "/*.hh") + glob.glob(REPO + "/*.cc") + glob.glob(REPO + "/*.h") + glob.glob(REPO + "/*.c")) + sorted(glob.glob(H + "/*"))
    for f in fs:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    for e in extra: h.update(str(e).encode())
    return h.hexdigest()[:20]

def incdirs(d):
    """config.h comes from /repo when its build has been configured, else from a committed copy."""
    inc = ["-I" + REPO]
    if not os.path.exists(REPO + "/config.h"):
        p = os.path.join(d, "inc"); os.makedirs(p, exist_ok=True)
        shutil.copy(H + "/config_fallback.h", p + "/config.h"); inc.append("-I" + p)
    return inc + ["-I" + H]

def compile_all(d, units, inc):
    """units: list of (source, object, flags). Compiles in parallel."""
    procs = []; todo = list(units); errs = []
    while todo or procs:
        while todo and len(procs) < NCPU:
            src, obj, fl = todo.pop(0)
            cmd = ["g++", "-std=gnu++17", "-w"] + fl + inc + ["-c", src, "-o", obj]
            procs.append((src, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        src, cmd, p = procs.pop(0)
        out, _ = p.communicate()
        if p.returncode: errs.append(src + ":\n" + out[-3000:])
    if errs: raise CheckError("build failed:\n" + "\n".join(errs))

TSAN = ["-g", "-O1", "-fno-builtin-memcpy", "-fno-builtin-memcmp", "-fno-builtin-memmove", "-fno-builtin-memset", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "malloc free calloc realloc posix_memalign memcpy memmove memcmp memset abort".split())]
PLAINLIB = "json string straccum str compiler string_slice msgpack kvio value_array value_string value_versioned_array".split()

def build(name, fn):
    """Build target `name` with fn(dir) unless an identical build exists; returns the directory."""
    d = os.path.join(BUILD, name + "-" + source_hash([name]))
    if os.path.exists(d + "/.done"): return d
    os.makedirs(BUILD, exist_ok=True)
    for o in sorted(glob.glob(os.path.join(BUILD, name + "-*")), key=os.path.getmtime)[:-3]: shutil.rmtree(o, ignore_errors=True)
    t = tempfile.mkdtemp(prefix=name + ".", dir=BUILD)
    try:
        fn(t); open(t + "/.done", "w").close()
        try: os.rename(t, d)
        except OSError:
            if not os.path.exists(d + "/.done"): raise
            shutil.rmtree(t, ignore_errors=True)
    except BaseException:
        shutil.rmtree(t, ignore_errors=True); raise
    return d

def build_vs(name, harness, repo_tsan=("kvthread",), repo_plain=PLAINLIB, extra_flags=(), defs=(), link=()):
    """A harness run under the deterministic scheduler."""
    def fn(d):
        inc = incdirs(d); md = ["-include", H + "/vs_memdebug.hh"]
        cfg = ["-include", (REPO + "/config.h") if os.path.exists(REPO + "/config.h") else d + "/inc/config.h"]
        u = [(H + "/vsched.cc", d + "/vsched.o", ["-O2", "-g", "-fno-builtin"]),
             (H + "/" + harness, d + "/main.o", TSAN + md + list(extra_flags) + list(defs))]
        u += [(REPO + "/%s.cc" % f, d + "/t_%s.o" % f, TSAN + md + list(extra_flags) + list(defs)) for f in repo_tsan]
        u += [(REPO + "/%s.cc" % f, d + "/%s.o" % f, ["-O1", "-g"] + cfg) for f in repo_plain]
        compile_all(d, u, inc)
        r = sh(["g++", "-o", d + "/" + name] + [x[1] for x in u] + WRAP + list(link) + ["-lpthread"])
        if r.returncode: raise CheckError("link failed:\n" + r.stderr[-3000:])
    return build(name, fn) + "/" + name

# -------------------------------------------------------------------- TLC ---
class TLCResult:
    def __init__(s): s.states = 0; s.distinct = 0; s.violated = None; s.trace = []; s.out = ""; s.ok = False; s.depth = 0

def cfg_text(module, text):
    n = "gen-%s-%s.cfg" % (module, hashlib.sha256(text.encode()).hexdigest()[:8])
    open(os.path.join(scratch(), n), "w").write(text); return n
def fact(n): return 1 if n < 2 else n * fact(n - 1)

def tlc(module, cfg=None, env=None, workers=NCPU, timeout=800, args=(), heap="6g", tag=""):
    """Run TLC on spec/<module>.tla. violated = name of the violated invariant/property, or None."""
    w = tempfile.mkdtemp(prefix="tlc-" + module + ".", dir=scratch())
    for f in glob.glob(SPEC + "/*.tla") + glob.glob(SPEC + "/*.cfg") + glob.glob(scratch() + "/gen-*.cfg"): shutil.copy(f, w)
    e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + w, "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers), "-metadir", w + "/states", "-config", (cfg or module + ".cfg"), "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
    try: r = subprocess.run(cmd, cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired: shutil.rmtree(w, ignore_errors=True); raise CheckError("TLC timed out on " + module)
    res = TLCResult(); res.out = r.stdout
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", r.stdout)
    if m: res.states = int(m[-1][0].replace(",", "")); res.distinct = int(m[-1][1].replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", r.stdout)
    if m: res.depth = int(m.group(1))
    m = re.search(r"Error: Invariant (\S+) is violated|Error: Action property (.*?) is violated|Error: Temporal propert.*? violated|Error: (Assumption|Deadlock).*", r.stdout)
    if m: res.violated = m.group(1) or m.group(2) or m.group(0)
    elif "No error has been found" in r.stdout or (r.returncode == 0 and "Error:" not in r.stdout): res.ok = True
    else:
        shutil.rmtree(w, ignore_errors=True)
        raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, r.stdout[-3000:]))
    shutil.rmtree(w, ignore_errors=True)
    return res

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        import atexit; atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def judge(module, items, env=None, cfg=None, var="h", timeout=800):
    """items: list of JSON texts, one recorded behaviour each. Returns (TLCResult, index of a rejected item or None)."""
    f = tempfile.mktemp(prefix="hist", suffix=".json", dir=scratch())
    with open(f, "w") as o: o.write("[" + ",\n".join(items) + "]")
    e = dict(env or {}); e["HIST"] = f
    res = tlc(module, cfg=cfg, env=e, timeout=timeout); os.unlink(f)
    if res.violated is None: return res, None
    m = re.findall(r"(?m)^(?:/\\ )?" + var + r" = (\d+)", res.out)
    return res, int(m[-1]) - 1

def judge_all(module, items, env=None, cfg=None, chunk=6000, maxbad=5, timeout=800):
    """Judge all items, collecting up to maxbad rejected indices (continuing behind a rejected one)."""
    bad = []; tot = TLCResult(); tot.ok = True
    base = 0
    while base < len(items):
        part = list(range(base, min(len(items), base + chunk))); base += chunk
        while part:
            res, b = judge(module, [items[i] for i in part], env, cfg, timeout=timeout)
            tot.states += res.states; tot.distinct += res.distinct; tot.depth = max(tot.depth, res.depth)
            if b is None: break
            bad.append(part[b]); part.pop(b)
            if len(bad) >= maxbad: return tot, bad
    return tot, bad

# --------------------------------------------------------------- reporting --
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
def known_findings(prop):
    """Lines 'finding: property=<id> key=<regex> :: <text>'."""
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

class Report:
    def __init__(s, prop, level):
        s.prop = prop; s.level = level; s.cov = {}; s.assume = []; s.viol = []; s.known = []; s.notes = []
    def violation(s, text, replay, key=""):
        for k, t in known_findings(s.prop):
            if re.search(k, key or text):
                if t not in s.known: s.known.append(t)
                return
        s.viol.append((text, replay))
    def save_replay(s, obj):
        d = os.path.join(VERIF, "build", "replays"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (s.prop, hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:12]))
        json.dump(obj, open(p, "w"), indent=1, default=str); return p
    def finish(s):
        ev = dict(property=s.prop, tier=TIER, seed=SEED, level=s.level, coverage=s.cov, assumptions=s.assume, wall_s=round(time.time() - T0, 1), violations=len(s.viol))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % s.prop, "w"), indent=1)
        for k in s.known: say("KNOWN-FINDING: property=%s %s" % (s.prop, k))
        for t, r in s.viol: say("  " + t)
        if s.viol:
            say("VIOLATION property=%s replay=%s" % (s.prop, s.viol[0][1])); return 1
        say("OK property=%s %s wall=%.0fs" % (s.prop, json.dumps({k: v for k, v in s.cov.items() if isinstance(v, (int, float))}), time.time() - T0))
        return 0
