"""Checks on the concurrent tree (harness treex + specifications KeyLin, ScanShape, Reclaim...)."""
import os, json, subprocess, tempfile, time
import vlib
from vlib import *

def treex(rows=None):
    """rows: type of rows the table is built with (None: the default)"""
    if not rows: return build_vs("treex", "treex.cc")
    v = ["value_array"]
    return build_vs("treex-" + rows, "treex.cc", ["kvthread"] + v, [x for x in PLAINLIB if x not in v], extra_flags=["-include", H + "/rows_%s.h" % rows])

def run_shards(exe, shards, timeout, rep=None):
    """shards: list of argument lists; returns list of output prefixes (None for a shard that died, reported as a violation)."""
    ps = []
    for i, a in enumerate(shards):
        out = os.path.join(scratch(), "shard%d-%d" % (i, int(time.time() * 1000) % 100000))
        err = open(out + ".err", "w")
        ps.append((out, a, subprocess.Popen([exe] + a + ["--out", out], stdout=err, stderr=err)))
    outs = []; dead = []
    for out, a, p in ps:
        try: rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired: p.kill(); rc = None
        outs.append(out if rc == 0 else None)
        if rc != 0: dead.append((out, a, rc))
    for out, a, rc in dead:
        # the code under test took the harness process down: it has to happen again
        if rep is None: raise CheckError("harness exited with %s: %s" % (rc, open(out + ".err").read()[-1500:]))
        cmd = [exe] + a + ["--out", out + ".again"]; r2 = None
        try: r2 = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout).returncode
        except subprocess.TimeoutExpired: pass
        if r2 == 0: rep.cov["unconfirmed"] = rep.cov.get("unconfirmed", 0) + 1; continue
        why = "does not finish" if rc is None else "dies with status %d" % rc
        rp = rep.save_replay(dict(property=rep.prop, command=cmd, failure=why)); rep.violation("harness process running the real code " + why, rp, key="harness " + why)
    if not [o for o in outs if o] and not rep.viol: raise CheckError("every harness process died once")
    return outs

def load(outs, kind):
    """merged distinct behaviours: text -> (scenario line, key, schedule)"""
    m = {}
    for o in outs:
        if not os.path.exists(o + "." + kind): continue
        scn = open(o + ".scn").read().split("\n") if os.path.exists(o + ".scn") else None
        for l in open(o + "." + kind):
            t, s, k, tr = l.rstrip("\n").split("\t")
            if t not in m: m[t] = (scn[int(s)] if scn else "", int(k), tr)
    return m

def stats(outs):
    t = {}
    for o in outs:
        for k, v in json.load(open(o + ".stat")).items(): t[k] = t.get(k, 0) + v
    return t

def fails(outs):
    r = []
    for o in outs:
        for l in open(o + ".fail"):
            try: r.append(json.loads(l))
            except ValueError: r.append(dict(kind="unparsed", what=l[:200], scenario="", trace="", phase=""))
    return r

def replay_one(exe, fam, scenario, trace, extra=()):
    f = tempfile.mktemp(dir=scratch()); open(f, "w").write(scenario + "\n" + trace + "\n")
    out = f + ".out"
    r = sh([exe, "--family", fam, "--replay", f, "--out", out] + list(extra), timeout=120)
    return out

def confirm_fail(exe, fam, f, extra=()):
    out = replay_one(exe, fam, f["scenario"], f["trace"], extra)
    return any(True for _ in open(out + ".fail"))

def confirm_item(exe, fam, kind, item, org, module, env, extra=()):
    out = replay_one(exe, fam, org[0], org[2], extra)
    again = load([out], kind)
    return item in again

def tree_check(rep, fams, secs, modules, extra=(), fail_kinds=None, rows=None):
    """fams: list of (family, args, share). modules: kind -> (module, env)."""
    exe = treex(rows); n = NCPU; shards = []; meta = []
    tot = sum(f[2] for f in fams); 
    alloc = []
    for f in fams: alloc += [f] * max(1, round(n * f[2] / tot))
    for i in range(max(n, len(alloc))):
        f = alloc[i % len(alloc)]
        shards.append(["--family", f[0], "--seed", str(vlib.SEED * 1000 + i), "--secs", str(secs)] + list(f[1]) + list(extra)); meta.append(f)
    outs = run_shards(exe, shards, secs * 2 + 100, rep)
    famof = {o: m for o, m in zip(outs, meta) if o}; outs = [o for o in outs if o]
    st = dict(dict(executions=0, scenarios=0, steps=0, switches=0), **stats(outs))
    # direct failures: crash, failed assertion, stuck, misuse of memory
    fl = []
    for o in outs:
        for f in fails([o]): f["family"] = famof[o][0]; f["extra"] = list(famof[o][1]) + list(extra); fl.append(f)
    seen = set(); unconfirmed = 0
    for f in fl:
        key = (f["kind"], f["what"])
        if key in seen: continue
        if fail_kinds is not None and f["kind"] not in fail_kinds: continue
        ok = confirm_fail(exe, f["family"], f, f["extra"])
        if not ok: unconfirmed += 1; continue
        seen.add(key)
        rp = rep.save_replay(dict(property=rep.prop, failure=f["kind"], what=f["what"], phase=f["phase"], family=f["family"], scenario=f["scenario"], schedule=f["trace"], args=f["extra"], rows=rows))
        rep.violation("operation failed on the real code: %s: %s (%s)" % (f["kind"], f["what"], f["phase"]), rp, key="%s: %s" % key)
    validated = 0; states = trans = 0; samples = []
    for kind, (module, env) in modules.items():
        bymeta = {}
        for o in outs: bymeta.setdefault((famof[o][0], tuple(famof[o][1])), []).append(o)
        items = {}
        for mk, os_ in bymeta.items():
            for t, org in load(os_, kind).items(): items.setdefault(t, (org, mk))
        lst = list(items)
        if not lst: continue
        res, bad = judge_all(module, lst, env)
        validated += len(lst); states += res.distinct; trans += res.states
        samples += [dict(kind=kind, behaviour=json.loads(x)) for x in lst[:2]]
        for b in bad:
            org, mk = items[lst[b]]
            if not confirm_item(exe, mk[0], kind, lst[b], org, module, env, list(mk[1]) + list(extra)): unconfirmed += 1; continue
            rp = rep.save_replay(dict(property=rep.prop, module=module, env=env, kind=kind, family=mk[0], args=list(mk[1]) + list(extra), scenario=org[0], key=org[1], schedule=org[2], behaviour=json.loads(lst[b]), rows=rows))
            rep.violation("recorded behaviour is not one of specification %s (%s)" % (module, kind), rp, key=lst[b])
    rep.cov.update(states=rep.cov.get("states", 0) + states, transitions=rep.cov.get("transitions", 0) + trans, traces_validated_against_impl=rep.cov.get("traces_validated_against_impl", 0) + validated,
                   executions=rep.cov.get("executions", 0) + st["executions"], scenarios=rep.cov.get("scenarios", 0) + st["scenarios"], shared_memory_steps=rep.cov.get("shared_memory_steps", 0) + st["steps"], context_switches=rep.cov.get("context_switches", 0) + st["switches"], unconfirmed=rep.cov.get("unconfirmed", 0) + unconfirmed)
    rep.cov.setdefault("samples", []); rep.cov["samples"] += samples
    return st
