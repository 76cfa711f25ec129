#!/usr/bin/env python3
"""mkseed(id, kind, property, edits, needs, breaks, files): writes /verif/seeded/<id> from edits to a clone in /tmp/mk."""
import json, os, shutil, subprocess, sys
MK = "/tmp/mk"; KIT = "/verif/tools/seedkit"
BASE = "cc85a69"
def orig(id):
    """every hunk has to change a line of the original repository"""
    import re
    old = subprocess.run(["git", "diff", "-U0"], cwd=MK, capture_output=True, text=True).stdout
    f = None; ok = bad = 0
    for l in old.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
        if m and m.group(2) != "0":
            a = int(m.group(1)); n = int(m.group(2) or 1)
            b = subprocess.run(["git", "blame", "-s", "-l", "-L%d,%d" % (a, a + n - 1), "HEAD", "--", f], cwd=MK, capture_output=True, text=True).stdout
            base = subprocess.run(["git", "rev-list", BASE], cwd=MK, capture_output=True, text=True).stdout.split()
            for x in b.splitlines():
                if x.split()[0].lstrip("^")[:39] in [c[:39] for c in base]: ok += 1
                else: bad += 1
    print(id, "original lines changed: %d, own: %d" % (ok, bad))
    assert ok, id
def mkseed(id, kind, prop, edits, needs, breaks, files):
    subprocess.run("git checkout -q . && git pull -q", shell=True, cwd=MK, check=True)
    for f, a, b in edits:
        p = os.path.join(MK, f); s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    orig(id)
    d = "/verif/seeded/" + id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = subprocess.run(["git", "diff"], cwd=MK, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    if kind == "rust":
        for f in ("Cargo.toml", "Cargo.lock"): shutil.copy(os.path.join(KIT, f), d)
    if kind in ("rust", "ts"): shutil.copy(os.path.join(KIT, kind + "_demo.sh"), d + "/demo.sh")
    for n, t in files.items(): open(os.path.join(d, n), "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run("git checkout -q .", shell=True, cwd=MK, check=True)
