#!/usr/bin/env python3
"""Development aid: every check must stay quiet after edits that keep the behaviour.
usage: run.py [NAME...]; works in copies under /tmp/ref."""
import subprocess, sys, os, shutil
here = os.path.dirname(os.path.abspath(__file__))
exec(open(here + "/edits.py").read())
base = "/tmp/ref"
def sh(c, t=3000):
    r = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, cwd=base)
    return r.returncode, r.stdout + r.stderr
shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
sh("cp -a /repo %s/repo; mkdir v; cp -a /verif/dsim /verif/simseam /verif/vendor /verif/check.sh /verif/known_findings.txt v/; mkdir v/evidence; sed -i s#/repo/#%s/repo/# v/dsim/Cargo.toml" % (base, base))
for name in sys.argv[1:] or R:
    sh("git -C repo checkout -q -- .")
    for f, o, n in R[name]:
        p = base + "/repo/optlib/src/" + f
        s = open(p).read()
        if o not in s: print(name, "NOT FOUND", f, o[:200])
        open(p, "w").write(s.replace(o, n, 1))
    rc, o = sh("cd v && ./check.sh --build")
    if rc: print(name, "BUILD", o[-2000:]); continue
    rc, o = sh("cd repo && CARGO_TARGET_DIR=%s/t cargo test --offline -q -p optlib --lib" % base)
    if rc: print(name, "TESTS", o[-2000:]); continue
    loud = []
    for c in (os.environ.get("CHECKS") or " ".join("C%02d" % i for i in range(1, 29) if i not in (23, 24))).split():
        rc, o = sh("cd v && VERIF_SEED=1 VERIF_TIER=quick ./target/debug/dsim check " + c)
        if rc: loud.append((c, rc, o[-1500:]))
    print(name, "quiet" if not loud else "LOUD", flush=True)
    for l in loud: print(*l)
shutil.rmtree(base)
