#!/usr/bin/env python3
"""Create seeded/<id>/ from a description file: python3 tools/mkseed.py DESC.py  (DESC defines BUGS)."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}; exec(open(sys.argv[1]).read(), g)
for id, b in g["BUGS"].items():
    if len(sys.argv) > 2 and id not in sys.argv[2:]: continue
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(); subprocess.run(["git", "-C", "/repo", "archive", "--format=tar", "-o", t + "/a.tar", "HEAD"], check=True)
    subprocess.run("cd %s && mkdir w && tar xf a.tar -C w && cd w && git init -q && git add -A -f && git -c user.email=a@b -c user.name=x commit -qm x" % t, shell=True, check=True)
    for f, old, new in b["edits"]:
        p = t + "/w/" + f; s = open(p).read()
        if s.count(old) != 1: sys.exit("%s: %s: %d matches for %r" % (id, f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", t + "/w", "diff"], stdout=subprocess.PIPE, text=True).stdout)
    shutil.rmtree(t)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)
    demo = b["demo"]
    if demo[0] == "stress":
        for f in ("stress.cc", "pause.cc"): shutil.copy(V + "/tools/demo/" + f, d)
        s = open(V + "/tools/demo/demo.sh").read().replace("${RUNS:-", demo[1] + "\n" if 0 else "${RUNS:-")
        open(d + "/demo.sh", "w").write(s.replace("set -e\n", demo[1] + "\nset -e\n", 1))
    elif demo[0] == "py":
        shutil.copy(V + "/tools/demo/mtd.py", d); open(d + "/demo.py", "w").write("import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom mtd import *\n" + demo[1])
        open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd); PYTHONDONTWRITEBYTECODE=1 exec timeout 250 python3 $D/demo.py\n')
    else:
        open(d + "/demo.cc", "w").write(demo[1]); libs = demo[2] if len(demo) > 2 else ""
        open(d + "/demo.sh", "w").write('#!/bin/bash\nset -e\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ng++ -std=gnu++17 -w -g -O1 -I. -include config.h -o $T/demo $D/demo.cc %s -lpthread\n$T/demo\n' % " ".join(x + ".cc" for x in libs.split()))
    print(id)
