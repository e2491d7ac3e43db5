"""The check of every property."""
import json, os, subprocess
import vlib
from vlib import *
from treecheck import *
from seqcheck import *
from dsimcheck import *

def secs(q, t): return q if TIER == "quick" else t
SCN = H + "/scenarios/"
TREE_ASSUME = ["sequentially consistent interleavings of all shared-memory accesses (no weaker memory order)",
               "schedules are sampled (random, priority-based, one-pause), not enumerated",
               "node widths 3, 4 and 15; up to 4 threads plus an epoch-advancing thread"]
KL = {"CHECKTS": "0"}

def C01(rep):
    rep.assume = TREE_ASSUME
    tree_check(rep, [("point", [], 5), ("struct", [], 2), ("struct", ["--scnfile", SCN + "stale_writer.scn", "--per", "100000"], 1)], secs(35, 500), {"hist": ("KeyLin", KL)})
def C03(rep):
    rep.assume = TREE_ASSUME
    tree_check(rep, [("scan", [], 8)], secs(35, 500), {"hist": ("KeyLin", KL), "shape": ("ScanShape", {})})
def C04(rep):
    rep.assume = TREE_ASSUME
    tree_check(rep, [("struct", [], 7), ("struct", ["--scnfile", SCN + "stale_writer.scn", "--per", "100000"], 1)], secs(35, 500), {"hist": ("KeyLin", KL), "shape": ("ScanShape", {})})
RCUCFG = "INIT Init\nNEXT Next\nVIEW View\nCONSTANTS Threads = {t1, t2} Objs = {%s} M = 12 FreeCount = 2 Slack = 1\nINVARIANTS Safe OnceOnly Sorted\nCHECK_DEADLOCK FALSE\n"
def rcu(): return build_plain("rcu", "rcu.cc", repo=PLAINLIB + ["kvthread"], link=("-Wl,--wrap=free",))
def rcu_histories(rep):
    """Long sequential histories of the reclamation layer alone."""
    f = scratch() + "/rcu.json"; cmd = [rcu(), f, str(vlib.SEED), str(secs(300, 3000)), "120"]
    if run_harness(rep, cmd): judge_file(rep, f, "RcuTrace", cmd=cmd, chunk=400, kind="history")
def C05(rep):
    rep.assume = TREE_ASSUME + ["objects are allocated one by one (no pools), so that every release is seen"]
    tree_check(rep, [("rcu", [], 6), ("rcu", ["--scnfile", SCN + "root_internode.scn", "--per", "100000"], 1), ("rcu", ["--scnfile", SCN + "root_table.scn", "--per", "100000"], 1), ("rcu", ["--scnfile", SCN + "unlink_in_split.scn", "--per", "100000"], 1)], secs(40, 500), {"proj": ("Reclaim", {})})
    model(rep, "Rcu", cfg_text("Rcu", RCUCFG % secs("o1", "o1, o2")), timeout=900)
    rcu_histories(rep)
def C06(rep):
    rep.assume = TREE_ASSUME
    tree_check(rep, [("leak", [], 8)], secs(40, 500), {"leak": ("Leak", {})})
    rcu_histories(rep)
def C09(rep):
    rep.assume = TREE_ASSUME
    tree_check(rep, [("cols", [], 8)], secs(30, 400), {"hist": ("KeyLin", KL)})
    tree_check(rep, [("cols", ["--uaf", "1"], 8)], secs(14, 150), {"hist": ("KeyLin", KL)}, rows="array")   # the other way to keep rows that is in use: an array of columns
def C10(rep):
    rep.assume = TREE_ASSUME
    tree_check(rep, [("ts", [], 8)], secs(35, 500), {"hist": ("KeyLin", {"CHECKTS": "1"})})
def C11(rep):
    rep.assume = TREE_ASSUME
    tree_check(rep, [("phantom", [], 7), ("phantom", ["--scnfile", SCN + "layer_versions.scn", "--per", "100000"], 1)], secs(35, 500), {"hist": ("KeyLin", KL)})
def C18(rep):
    rep.assume = TREE_ASSUME + ["a run that exceeds the step bound although every thread keeps getting turns counts as endless"]
    tree_check(rep, [("progress", [], 8)], secs(35, 500), {"hist": ("KeyLin", KL)})

MAPCFG = "INIT Init\nNEXT Next\nCONSTANTS S = %d MaxLen = %d Bytes = {0, 1} MaxKeys = %d\nINVARIANTS Lookup Whole Scans Shape\nCHECK_DEADLOCK FALSE\n"
def seqmap(): return build_plain("seqmap", "seqmap.cc", repo=PLAINLIB + ["kvthread"])
def map_histories(rep, nprog, len):
    f = scratch() + "/map.json"; cmd = [seqmap(), f, str(vlib.SEED), str(nprog), str(len)]
    r = run_harness(rep, cmd)
    judge_file(rep, f, "MapTrace", cmd=cmd, chunk=300, kind="history")
def C02(rep):
    rep.assume = ["one thread; histories are sampled: random keys of 0 to 255 bytes (shared prefixes, NULs, boundary bytes), node widths 3, 4, 5 and 15", "the key layout design is explored for slices of 1 and 2 bytes, keys of up to 4 and at most 3 keys at a time"]
    for c in secs([(1, 3, 3), (2, 4, 2)], [(1, 3, 4), (1, 4, 3), (2, 4, 3), (2, 5, 2)]): model(rep, "TrieMap", cfg_text("TrieMap", MAPCFG % c), timeout=3000)
    map_histories(rep, secs(1200, 20000), 400)

def perm(): return build_plain("perm", "perm.cc")
def C08(rep):
    rep.assume = ["operations are used within their documented preconditions", "all values and operations for widths 1..4 (thorough 1..5); random walks for 1..15"]
    W = secs(4, 5); f = scratch() + "/perm.json"
    for w in range(1, W + 1):
        model(rep, "Permuter", cfg_text("Permuter", "SPECIFICATION Spec\nCONSTANT W = %d\nINVARIANT AlwaysLegal\nPROPERTY Untouched\nCHECK_DEADLOCK FALSE\n" % w), expect=fact(w) * (w + 1))
    cmd = [perm(), f, str(W), str(vlib.SEED), str(secs(400, 4000)), "60"]
    r = run_harness(rep, cmd)
    if r:
        judge_file(rep, f, "PermTrace", cmd=cmd)
        n = dict((int(a), int(b)) for a, b in (x.split(":") for x in r.stdout.split("\n")[0].split()))
        rep.cov["values_enumerated"] = sum(n.values()); rep.cov["operations"] = int(r.stdout.split("\n")[1].split()[0])
        if not rep.viol and n != {w: fact(w) * (w + 1) for w in n}: raise CheckError("enumerated %s values" % n)

def circ(): return build_plain("circ", "circ.cc", repo=PLAINLIB + ["kvthread"])
def C22(rep):
    rep.assume = ["every pair of 8-bit values; boundary and random pairs of 16-, 32- and 64-bit values; values exactly half the range apart are unordered"]
    for m in secs([4, 8, 16], [4, 8, 16, 24, 32]):
        model(rep, "Circular", cfg_text("Circular", "SPECIFICATION Spec\nCONSTANT M = %d\nINVARIANT Ordered\nPROPERTY NeverZero\nCONSTRAINT Short\nCHECK_DEADLOCK FALSE\n" % m))
    f = scratch() + "/circ.json"; cmd = [circ(), f, str(vlib.SEED), str(secs(4000, 40000))]
    r = run_harness(rep, cmd)
    if r: judge_file(rep, f, "CircTrace", cmd=cmd)

def msgp(): return build_plain("msgp", "msgp.cc", repo=("json", "string", "straccum", "str", "compiler", "string_slice", "msgpack", "kvio"), flags=("-O1", "-g", "-fsanitize=address"))
MSCFG = "SPECIFICATION Spec\nCONSTANTS Alphabet = {%s} MaxLen = %d\nINVARIANT Meaning\nCHECK_DEADLOCK FALSE\n"
def C21(rep):
    rep.assume = ["values are sampled: every size class of every kind, nesting of up to 5 levels (and single deep messages); every division into two pieces of messages up to 48 bytes, single bytes, and random divisions of longer ones", "left open by the specification: sizes of 2^31 and more, maps keyed by integers longer than a byte, denormal and NaN 4-byte floats, nesting beyond 64 levels"]
    for a, n in [("5, 224, 145, 146, 129, 161, 162, 217, 205, 193", secs(4, 5)), ("0, 1, 218, 220, 222, 208, 202", secs(5, 6))]: model(rep, "MsgStream", cfg_text("MsgStream", MSCFG % (a, n)), timeout=3000)
    f = scratch() + "/msgp.json"; cmd = [msgp(), f, str(vlib.SEED), str(secs(500, 8000))]
    r = run_harness(rep, cmd, timeout=secs(300, 3000))
    if r: rep.cov.update(json.loads(r.stdout.strip().splitlines()[-1])); judge_file(rep, f, "MsgpackTrace", cmd=cmd)

def vals(): return build_plain("vals", "vals.cc", repo=("json", "string", "straccum", "str", "compiler", "string_slice"), flags=("-O1", "-g", "-fsanitize=address", "-Wno-nonnull"))
def C20(rep):
    rep.assume = ["programs are sampled, except all sequences of four of sixteen String operations; four Strings, two StringAccums, three Jsons up to three levels deep",
                  "references into a value are not kept across other operations; a moved-from value is only assigned to; size() is asked of arrays and objects only; one thread",
                  "left open by the specification: whether separate arrays or objects with equal contents compare equal, null merged with {}, signedness of numbers"]
    model(rep, "Sharing", cfg_text("Sharing", open(vlib.SPEC + "/Sharing.cfg").read().replace("MaxOps = 5", "MaxOps = %d" % secs(5, 7))), timeout=3000)
    model(rep, "TreeSharing", cfg_text("TreeSharing", open(vlib.SPEC + "/TreeSharing.cfg").read().replace("MaxOps = 3", "MaxOps = %d" % secs(3, 5))), timeout=3000)
    shards(rep, vals(), "vals", lambda i: [str(vlib.SEED * 100 + i), str(secs(1200, 20000)), str(i), "8"], "ValuesTrace", secs(300, 3000))
def shards(rep, exe, name, args, module, timeout):
    """Eight instances of a harness in parallel; all that they record is judged."""
    ps = []
    for i in range(8):
        f = scratch() + "/%s-%d" % (name, i); cmd = [exe, f] + args(i)
        ps.append((cmd, f, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    whole = scratch() + "/" + name
    with open(whole, "w") as w:
        for cmd, f, p in ps:
            try: out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired: p.kill(); p.wait(); out = None
            if out is None or p.returncode:
                r = run_harness(rep, cmd, timeout=timeout)     # again, alone
                if not r: break
                out = r.stdout
            for k, v in json.loads(out.strip().splitlines()[-1]).items(): rep.cov[k] = rep.cov.get(k, 0) + v
            w.write(open(f).read())
    for _, _, p in ps: p.kill(); p.wait()
    judge_file(rep, whole, module, cmd=ps[0][0])

def obj(): return build_vs("obj", "obj.cc", repo_tsan=(), repo_plain=["compiler"])
def obj_check(rep, fam, module, cap, sec):
    """Concurrent objects under the scheduler: shards in parallel, every distinct behaviour judged."""
    exe = obj(); n = NCPU; ps = []
    for i in range(n):
        f = scratch() + "/obj-%s-%d" % (fam, i); cmd = [exe, fam, f, str(vlib.SEED * 100 + i), str(sec), str(cap // n)]
        ps.append((cmd, f, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    whole = scratch() + "/obj-" + fam; seen = set(); st = {}
    with open(whole, "w") as w:
        for cmd, f, p in ps:
            try: out, err = p.communicate(timeout=sec * 3 + 200)
            except subprocess.TimeoutExpired: p.kill(); raise CheckError("harness obj does not finish")
            if p.returncode:
                if not run_harness(rep, cmd): continue
                raise CheckError("harness obj exited with %d once" % p.returncode)
            for k, v in json.loads(out).items(): st[k] = st.get(k, 0) + v
            w.write(open(f).read())
            for l in open(f + ".fail"):
                d = json.loads(l); key = (d["kind"], d["what"])
                if key in seen: continue
                c2 = cmd + [str(d["program"])]; c2[2] = f + ".again"; r = sh(c2, timeout=300)
                if r.returncode == 0 and d["what"] not in open(f + ".again.fail").read(): continue
                seen.add(key); rp = rep.save_replay(dict(property=rep.prop, command=c2, failure=d)); rep.violation("operation failed on the real code: %s: %s" % key, rp, key="%s: %s" % key)
    for k, v in st.items(): rep.cov[k] = rep.cov.get(k, 0) + v
    judge_file(rep, whole, module, cmd=ps[0][0])
def C07(rep):
    rep.assume = ["sequentially consistent interleavings of all shared-memory accesses; schedules are sampled", "the design is explored for 2 writers, 1 reader and 3 changes with wrapping counters of 2 and 3 bits"]
    model(rep, "NodeVersion", cfg_text("NodeVersion", "SPECIFICATION Spec\nCONSTANTS Writers = {w1, w2} Readers = {%s} MaxChange = %d VI = 4 VS = 8\nINVARIANTS Mutex Atomic\nCHECK_DEADLOCK FALSE\n" % secs(("r1", 3), ("r1, r2", 3))))
    obj_check(rep, "nv", "NVTrace", secs(24000, 200000), secs(30, 300))
    f = scratch() + "/nvseq"; cmd = [obj(), "seq", f, str(vlib.SEED), "0", str(secs(3000, 40000))]
    if run_harness(rep, cmd): judge_file(rep, f, "NVSeq", cmd=cmd, kind="sequence")
def C19(rep):
    rep.assume = ["sequentially consistent interleavings of all shared-memory accesses; schedules are sampled", "the design is explored for 2 threads, 3 operations, 3 initial leaves and a reader"]
    model(rep, "LeafLink", cfg_text("LeafLink", "SPECIFICATION Spec\nCONSTANTS Threads = {t1, t2} Reader = TRUE N0 = 3 NMax = 5 MaxOps = %d PublishFirst = TRUE\nINVARIANTS Consistent NoSkip Unreachable\nPROPERTIES Forward Finish\nCHECK_DEADLOCK FALSE\n" % secs(3, 4)))
    obj_check(rep, "link", "LinkTrace", secs(80000, 300000), secs(30, 300))

DUR_ASSUME = ["simulated machine: sequentially consistent threads, virtual time, files whose unsynced suffix (any length) a crash loses; creations, renames and removals of files survive in order",
               "crash instants, schedules and lost suffixes are sampled; 1 to 3 logs, up to 3 clients, 8 keys, 3 columns",
               "an answered update must survive when it was answered 2 s before the crash and nothing else was requested in that time; otherwise the recovered table must be that of one moment"]
ELCFG = "SPECIFICATION Spec\nCONSTANTS\n Logs = {%s}\n MaxEpoch = %d\n MaxOps = %d\n MaxCrash = %d\n Ckpts = %s\n RecordWake = TRUE\n EarlyWake = TRUE\n StartRecord = TRUE\n FreshEpoch = TRUE\n Barrier = TRUE\n CommitCheck = TRUE\n RaiseWake = TRUE\n Clamp = TRUE\nINVARIANTS TypeOK Sound Durable\nCHECK_DEADLOCK FALSE\n"
def epochlog(rep, *cs):
    for l, e, o, c, k in cs: model(rep, "EpochLog", cfg_text("EpochLog", ELCFG % (", ".join("l%d" % (i + 1) for i in range(l)), e, o, c, "TRUE" if k else "FALSE")), timeout=6000)
def C12(rep):
    rep.assume = DUR_ASSUME
    epochlog(rep, *secs([(2, 4, 3, 1, 0)], [(2, 6, 3, 1, 0), (3, 4, 3, 1, 0)]))
    dsim_check(rep, durable(), "default", "DurTrace", secs(60, 600), secs(120, 3000))
    judge_file(rep, scratch() + "/dsim-default.logs", "LogReplay", kind="recovery", chunk=1200)
def C16(rep):
    rep.assume = DUR_ASSUME + ["one log is damaged at a time; damage to the payload of a record, which nothing guards, is not considered"]
    dsim_check(rep, durable(), "damage", "DurTrace", secs(60, 600), secs(30, 600))
    judge_file(rep, scratch() + "/dsim-damage.logs", "LogReplay", kind="recovery", chunk=1200)
def C13(rep):
    rep.assume = DUR_ASSUME + ["the design covers one key, up to 4 (thorough 5) updates, 2 columns, every order of its records"]
    model(rep, "Replay", cfg_text("Replay", "SPECIFICATION Spec\nCONSTANTS MaxOps = %d Cols = {1, 2} PlainRemove = FALSE NoMerge = FALSE IgnoreOld = TRUE\nINVARIANTS Agree Ordered\nCHECK_DEADLOCK FALSE\n" % secs(4, 5)), timeout=3000)
    dsim_check(rep, durable(), "replay", "DurTrace", secs(60, 600), secs(120, 2500))
def C14(rep):
    rep.assume = DUR_ASSUME
    epochlog(rep, *secs([(2, 5, 1, 1, 1), (1, 5, 2, 1, 1)], [(2, 5, 2, 1, 1), (2, 4, 1, 2, 1)]))
    dsim_check(rep, durable(), "ckpt", "DurTrace", secs(60, 600), secs(120, 2500))
def C15(rep):
    rep.assume = DUR_ASSUME
    epochlog(rep, *secs([(2, 4, 2, 2, 0), (1, 4, 3, 2, 0)], [(2, 5, 3, 2, 0), (2, 5, 2, 3, 0)]))
    dsim_check(rep, durable(), "restart", "DurTrace", secs(60, 600), secs(70, 1800))
def C17(rep):
    rep.assume = ["simulated machine: sequentially consistent threads, virtual network and time; schedules, request mixes and divisions into reads and writes are sampled (the split family cuts small batches at every byte)",
                  "clients read their replies (one that doesn't blocks its thread), and wait for the answer to their handshake before sending requests; datagrams aren't lost",
                  "keys are private to a connection, so that every reply has one right value"]
    model(rep, "Connection", cfg_text("Connection", "SPECIFICATION Spec\nCONSTANTS Conns = {a, b} Len1 = %d N = 3 Cap = 3 OutCap = 1 WaitRest = FALSE FlushLast = TRUE\nINVARIANTS TypeOK Unique\nPROPERTIES Answered\nCHECK_DEADLOCK FALSE\n" % secs(2, 3)))
    dsim_check(rep, session(), "tcp", "Session", secs(25, 400), secs(60, 2500))
    dsim_check(rep, session(), "split", "Session", secs(25, 400), secs(60, 2000))

CHECKS = dict(C20=C20, C21=C21, C17=C17, C12=C12, C13=C13, C14=C14, C15=C15, C16=C16, C02=C02, C07=C07, C19=C19, C22=C22, C08=C08, C01=C01, C03=C03, C04=C04, C05=C05, C06=C06, C09=C09, C10=C10, C11=C11, C18=C18)
BUILDS = dict(vals=vals, durable=durable, session=session, seqmap=seqmap, rcu=rcu, obj=obj, perm=perm, msgp=msgp, circ=circ, treex=treex, treex_array=lambda: treex("array"))

def replay(prop, path):
    """Re-run one saved violation and say whether it happens again."""
    o = json.load(open(path))
    if "scenario" in o:
        exe = treex(o.get("rows")); out = replay_one(exe, o["family"], o["scenario"], o["schedule"], o.get("args", []))
        if "failure" in o: again = open(out + ".fail").read(); say(again or "no failure"); return 1 if again else 0
        items = load([out], o["kind"]); res, bad = judge_all(o["module"], list(items), o["env"])
        for b in bad: say(list(items)[b])
        say("rejected: %d" % len(bad)); return 1 if bad else 0
    say(json.dumps(o, indent=1)); return 1
