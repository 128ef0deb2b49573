#!/usr/bin/env python3
"""Development aid: applies small changes to a scratch copy of /repo and reports which checks notice.
usage: mut.py MUTANTS.py [name-prefix] ; MUTANTS.py defines M = [(name, file, old, new, [checks])]"""
import concurrent.futures, os, shutil, subprocess, sys, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUTBASE", "/repo")
ns = {}
exec(open(sys.argv[1]).read(), ns)
pref = sys.argv[2] if len(sys.argv) > 2 else ""
def one(m):
    name, f, old, new, checks = m
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "--no-preserve=ownership"] + [BASE + "/" + x for x in os.listdir(BASE) if x not in ("_build", ".git")] + [d], check=True)
        p = os.path.join(d, f)
        s = open(p, encoding="utf-8").read()
        if s.count(old) < 1:
            return name, "NOT FOUND"
        s = s.replace(old, new, 1)
        open(p, "w", encoding="utf-8").write(s)
        res = []
        for c in checks:
            # an own copy of /verif keeps the evidence of parallel runs apart
            v = os.path.join(d, "_v")
            if not os.path.exists(v):
                os.mkdir(v)
                for x in ("bin", "lib", "specs", "harness", "evidence", "known_findings.txt", "data"):
                    if os.path.exists(os.path.join(V, x)):
                        subprocess.run(["cp", "-a", os.path.join(V, x), v], check=True)
            env = dict(os.environ, REPO=d, VERIF_BUILD=os.path.join(d, "_b"), VERIF_SEED="1", VERIF_TIER="quick", VERIF_CACHE="/tmp/tlccache")
            q = subprocess.run(["python3", os.path.join(v, "bin", "check"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            w = [l for l in q.stdout.splitlines() if l.startswith("violation")]
            tail = "" if q.returncode in (0, 1) else q.stdout[-600:]
            res.append("%s:%s %s%s" % (c, {0: "quiet", 1: "CAUGHT"}.get(q.returncode, "ERROR %d" % q.returncode), (w[0][:150] if w else ""), tail))
        return name, "\n     ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)
ms = [m for m in ns["M"] if m[0].startswith(pref)]
with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("J", "3"))) as ex:
    for name, r in ex.map(one, ms):
        print("%-28s %s" % (name, r), flush=True)
