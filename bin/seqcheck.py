"""Checks that record behaviours of deterministic harnesses and have TLC judge them."""
import os, json, subprocess, tempfile
import vlib
from vlib import *

def build_plain(name, harness, repo=("json", "string", "straccum", "str", "compiler", "string_slice", "msgpack"), flags=("-O1", "-g"), defs=(), link=()):
    def fn(d):
        inc = incdirs(d); cfg = ["-include", (REPO + "/config.h") if os.path.exists(REPO + "/config.h") else d + "/inc/config.h"]
        u = [(H + "/" + harness, d + "/main.o", list(flags) + cfg + list(defs))] + [(REPO + "/%s.cc" % f, d + "/%s.o" % f, list(flags) + cfg + list(defs)) for f in repo]
        compile_all(d, u, inc)
        r = sh(["g++", "-o", d + "/" + name] + list(flags) + [x[1] for x in u] + list(link) + ["-lpthread"])
        if r.returncode: raise CheckError("link failed:\n" + r.stderr[-3000:])
    return build(name, fn) + "/" + name

def run_harness(rep, cmd, timeout=300, env=None, what="harness"):
    """Run a harness; one that dies on the code under test twice in a row is a violation."""
    for attempt in (1, 2):
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired: r = None
        if r is not None and r.returncode == 0: return r
    why = "does not finish" if r is None else "died (%s): %s" % (r.returncode, (r.stderr or "")[-400:])
    rp = rep.save_replay(dict(property=rep.prop, command=cmd, failure=why))
    rep.violation("%s running the real code %s" % (what, why), rp, key="harness " + why)
    return None

def judge_file(rep, path, module, env=None, cmd=None, chunk=6000, cfg=None, kind="behaviour", maxbad=3):
    items = []; seen = set()
    for l in open(path):
        l = l.strip()
        if l and l not in seen: seen.add(l); items.append(l)
    # a harness that was cut short leaves an incomplete last line
    good = []
    for l in items:
        try: json.loads(l); good.append(l)
        except ValueError: pass
    res, bad = judge_all(module, good, env, cfg=cfg, chunk=chunk, maxbad=maxbad)
    for b in bad:
        rp = rep.save_replay(dict(property=rep.prop, module=module, env=env or {}, kind=kind, command=cmd, behaviour=json.loads(good[b])))
        rep.violation("recorded %s is not one of specification %s" % (kind, module), rp, key=good[b])
    c = rep.cov
    c["states"] = c.get("states", 0) + res.distinct; c["transitions"] = c.get("transitions", 0) + res.states
    c["traces_validated_against_impl"] = c.get("traces_validated_against_impl", 0) + len(good)
    c.setdefault("samples", []); c["samples"] += [dict(kind=kind, behaviour=json.loads(x)) for x in good[:2] if len(x) < 20000]
    return good, bad

def model(rep, module, cfg=None, expect=None, **kw):
    """Exhaustively check a design specification with TLC; a violated design is an error of ours."""
    r = tlc(module, cfg=cfg, **kw)
    if r.violated: raise CheckError("specification %s (%s) violates %s:\n%s" % (module, cfg, r.violated, r.out[-3000:]))
    if expect is not None and r.distinct != expect: raise CheckError("specification %s: %d states, expected %d" % (module, r.distinct, expect))
    c = rep.cov; c["states"] = c.get("states", 0) + r.distinct; c["transitions"] = c.get("transitions", 0) + r.states
    c.setdefault("designs", []); c["designs"].append(dict(module=module, cfg=cfg or module + ".cfg", distinct_states=r.distinct, states=r.states, depth=r.depth))
    return r
