"""Checks that run the whole server in the deterministic simulation."""
import os, json, re, subprocess
import vlib
from vlib import *
from seqcheck import *

DSWRAP = "pthread_create pthread_self pthread_join pthread_mutex_init pthread_mutex_lock pthread_mutex_unlock pthread_cond_init pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast nanosleep usleep sleep sched_yield gettimeofday clock_gettime time signal sigaction setitimer open creat close write writev pwrite fsync fdatasync ftruncate rename unlink socket setsockopt bind listen accept pipe read recv send recvfrom sendto epoll_create epoll_create1 epoll_ctl epoll_wait select poll free".split()
# every source the server is linked from
SERVER_TSAN = "mtd log checkpoint query_masstree kvthread file".split()
SERVER_PLAIN = "misc clp kvrandom json string straccum str compiler string_slice msgpack kvio value_array value_string value_versioned_array".split()
def hook_asm(d, units, inc):
    """Compile through assembly; inline-assembly pauses and atomics become calls of the simulator (which saves every register)."""
    compile_all(d, [(src, obj[:-2] + ".s", fl + ["-mno-red-zone", "-S"]) for src, obj, fl in units], inc)
    for src, obj, fl in units:
        out = []
        for l in open(obj[:-2] + ".s", errors="replace"):
            if re.match(r"\s*(pause|rep; *nop|xchg[bwlq]?|lock)\b", l): out.append("\tcall\tsim_asm_point\n")
            if not re.match(r"\s*pause\b", l): out.append(l)
        open(obj[:-2] + ".s", "w").write("".join(out))
    compile_all(d, [(obj[:-2] + ".s", obj, []) for src, obj, fl in units], [])
def build_dsim(name, harness):
    def fn(d):
        inc = incdirs(d); cfg = ["-include", (REPO + "/config.h") if os.path.exists(REPO + "/config.h") else d + "/inc/config.h"]
        u = [(H + "/dsim.cc", d + "/dsim.o", ["-O2", "-g"]), (H + "/" + harness, d + "/main.o", ["-O1", "-g"])]
        tsan = ["-g", "-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
        hooked = []
        for f in SERVER_TSAN: hooked.append((REPO + "/%s.cc" % f, d + "/t_%s.o" % f, tsan + cfg + (["-Dmain=mtd_main"] if f == "mtd" else [])))
        for f in SERVER_PLAIN:
            src = REPO + "/%s.cc" % f
            if os.path.exists(src): u.append((src, d + "/%s.o" % f, ["-O1", "-g"] + cfg))
            elif os.path.exists(REPO + "/%s.c" % f): u.append((REPO + "/%s.c" % f, d + "/%s.o" % f, ["-x", "c", "-std=gnu11", "-O1", "-g"]))
        compile_all(d, u, inc); hook_asm(d, hooked, inc); u += hooked
        r = sh(["g++", "-o", d + "/" + name] + [x[1] for x in u] + ["-Wl," + ",".join("--wrap=" + f for f in DSWRAP)] + ["-lm", "-lpthread"])
        if r.returncode: raise CheckError("link failed:\n" + r.stderr[-3000:])
    return build(name, fn) + "/" + name
def durable(): return build_dsim("durable", "durable.cc")
def session(): return build_dsim("session", "session.cc")
def dsim_check(rep, exe, fam, module, sec, cap, shards=NCPU, judge=True):
    """Shards of simulated server programs in parallel; failures are confirmed by repeating their program, behaviours judged."""
    ps = []
    for i in range(shards):
        f = scratch() + "/dsim-%s-%d" % (fam, i); cmd = [exe, fam, f, str(vlib.SEED), str(i * cap), str(cap), str(sec)]
        ps.append((cmd, f, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")))
    whole = scratch() + "/dsim-" + fam; seen = set(); st = {}
    with open(whole, "w") as w:
        for cmd, f, p in ps:
            try: out, err = p.communicate(timeout=sec * 3 + 300)
            except subprocess.TimeoutExpired: p.kill(); raise CheckError("harness does not finish")
            if p.returncode: raise CheckError("harness exited with %d: %s" % (p.returncode, err[-500:]))
            for k, v in json.loads(out).items(): st[k] = st.get(k, 0) + v
            w.write(open(f).read())
            with open(whole + ".logs", "a") as w2: w2.write(open(f + ".logs").read())
            for l in open(f + ".fail"):
                d = json.loads(l); key = d["what"][:60]
                if key in seen or len(seen) > 4: continue
                c2 = cmd + [str(d["program"])]; c2[2] = f + ".again"; r = sh(c2, timeout=600)
                if r.returncode == 0 and d["what"][:25] not in open(f + ".again.fail").read(): rep.cov["unrepeated_failures"] = rep.cov.get("unrepeated_failures", 0) + 1; continue
                seen.add(key); rp = rep.save_replay(dict(property=rep.prop, command=c2, failure=d)); rep.violation("the real server: " + d["what"], rp, key=d["what"])
    for k, v in st.items(): rep.cov[fam + "_" + k] = rep.cov.get(fam + "_" + k, 0) + v
    if judge: judge_file(rep, whole, module, cmd=ps[0][0], kind="server run", chunk=1200)
    return whole
