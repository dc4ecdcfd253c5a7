#!/usr/bin/env python3
"""Development aid: seeds.py [-a] [ID...]: run the check of each planted bug's property (-a: all
checks) against it, in copies under /tmp/sd."""
import subprocess, sys, os, shutil, json, glob
base = "/tmp/sd"
def sh(c):
    r = subprocess.run(c, shell=True, capture_output=True, text=True, cwd=base)
    return r.returncode, r.stdout + r.stderr
shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
sh("git clone -q /repo repo; mkdir v; cp -a /verif/dsim /verif/simseam /verif/vendor /verif/check.sh /verif/known_findings.txt v/; mkdir v/evidence; sed -i s#/repo/#%s/repo/# v/dsim/Cargo.toml" % base)
a = sys.argv[1:]
every = "-a" in a
ids = [x for x in a if x != "-a"] or sorted(os.path.basename(d) for d in glob.glob("/verif/seeded/*"))
for i in ids:
    p = json.load(open("/verif/seeded/%s/meta.json" % i))["property"]
    if sh("git -C repo apply /verif/seeded/%s/patch.diff" % i)[0]: print(i, "does not apply", flush=True); continue
    rc, o = sh("cd v && ./check.sh --build")
    if rc: print(i, "BUILD", o[-1000:], flush=True)
    hit = []
    for c in (["C%02d" % n for n in range(1, 29) if n not in (23, 24)] if every else [p]):
        rc, o = sh("cd v && VERIF_SEED=1 VERIF_TIER=quick ./target/debug/dsim check " + c)
        if rc == 1 and "VIOLATION property=" + c in o: hit.append(c)
        elif rc: hit.append(c + "?%d" % rc)
    sh("git -C repo checkout -q -- .")
    print("caught" if p in hit else "MISSED", i, p, " ".join(hit), flush=True)
shutil.rmtree(base)
