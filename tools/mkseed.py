#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines S = {id: [(file, old, new), ...]}; writes seeded/<id>/patch.diff and tries the demo with and without."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for i, edits in ns["S"].items():
    if only and i not in only:
        continue
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        subprocess.run("git -C " + os.environ.get("REPO", "/repo") + " archive HEAD | tar x -C " + d, shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", shell=True, cwd=d, check=True)
        demo = os.path.join(V, "seeded", i, "demo.sh")
        a = subprocess.run(["bash", demo], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, encoding="utf-8").read()
            assert s.count(old) == 1, (i, f, s.count(old))
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(V, "seeded", i, "patch.diff"), "w").write(diff)
        b = subprocess.run(["bash", demo], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("%-24s plain %d patched %d %s" % (i, a.returncode, b.returncode, "" if a.returncode == 0 and b.returncode == 1 else "*** " + a.stdout[-300:] + b.stdout[-300:]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
