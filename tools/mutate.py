#!/usr/bin/env python3
"""Development aid: systematic small mutations of optlib, in copies under /tmp.
usage: mutate.py WORKER WORKERS [RUNS]
Each mutant that builds and passes the quick unit tests goes through all checks
with RUNS runs; survivors are printed. Nothing in /repo or /verif is touched."""
import re, subprocess, sys, os, shutil, glob, json
w, n = int(sys.argv[1]), int(sys.argv[2])
runs = sys.argv[3] if len(sys.argv) > 3 else "8000"
base = "/tmp/mut/%d" % w
FILES = ["particleswarm/mod.rs", "particleswarm/initializing/mod.rs", "particleswarm/postmove/mod.rs", "particleswarm/postvelocitycalc/mod.rs", "particleswarm/velocitycalc/mod.rs",
         "genetic/mod.rs", "genetic/selection/mod.rs", "genetic/selection/vec_float.rs", "genetic/pre_birth/vec_float.rs", "genetic/pairing/mod.rs", "genetic/mutation/mod.rs", "genetic/creation/vec_float.rs", "genetic/cross/mod.rs",
         "tools/mod.rs", "tools/logging/mod.rs", "tools/stopchecker/mod.rs", "tools/statistics/mod.rs"]
SUBS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > ", " == "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
        (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1"]), (r"new_inclusive\(", ["new("]), (r"\.min_by\(", [".max_by("]), (r"\.max_by\(", [".min_by("]), (r"Ordering::Less", ["Ordering::Greater", "Ordering::Equal"]),
        (r"Ordering::Greater", ["Ordering::Less", "Ordering::Equal"]), (r"Ordering::Equal", ["Ordering::Less"]), (r"!(?=[a-z])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" \+= ", [" -= "]), (r"personal", ["global"]), (r"best", ["worst"]), (r"worst", ["best"]), (r"\.0\b", [".1"]), (r"\.1\b", [".0"]),
        (r"current", ["global"]), (r"global", ["personal", "current"]), (r"\bfirst\b", ["second"]), (r"\bsecond\b", ["first"]), (r"\|", ["&"]), (r"<<", [">>"]), (r"is_finite\(\)", ["is_nan()"]), (r"\.len\(\)", [".len().saturating_sub(1)", ".len() + 1"]), (r"\.abs\(\)", [""]), (r"\.sqrt\(\)", [""]), (r"iter\(\)", ["iter().skip(1)", "iter().rev()"]), (r"\bf64::MAX\b", ["0.0"]),
        (r"unwrap\(\)", ["unwrap_or_default()"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"])]
def mutants():
    out = []
    for f in FILES:
        p = "/repo/optlib/src/" + f
        L = open(p).read().split("\n")
        end = next((i for i, l in enumerate(L) if "#[cfg(test)]" in l), len(L))
        for i in range(end):
            l = L[i]
            if l.strip().startswith(("//", "use ", "pub mod", "pub trait", "impl", "pub struct", "#[")) or not l.strip():
                continue
            for pat, reps in SUBS:
                for m in re.finditer(pat, l):
                    for r in reps:
                        out.append((f, i, l[:m.start()] + r + l[m.end():], "sub"))
            s = l.strip()
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", ".")):
                out.append((f, i, "", "del"))
            m = re.match(r"(\s*)(\} else )?if (.*) \{$", l)
            if m and "let" not in m.group(3):
                out.append((f, i, "%s%sif true || %s {" % (m.group(1), m.group(2) or "", m.group(3)), "if"))
                out.append((f, i, "%s%sif false && (%s) {" % (m.group(1), m.group(2) or "", m.group(3)), "if"))
    return out
def sh(c, t=600):
    try:
        r = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, cwd=base)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, ""
M = mutants()
import random
random.Random(7).shuffle(M)
if "--again" in sys.argv:   # only the earlier survivors, wherever their lines are now
    old = set()
    for g in glob.glob("/tmp/mut/res.*"):
        for l in open(g):
            m = re.match(r"ALIVE  (\S+):\d+: (.*) -> (.*?)   \[\]$", l.rstrip("\n"))
            if m: old.add((m.group(1), m.group(2).strip(), m.group(3).strip()))
    LN = {f: open("/repo/optlib/src/" + f).read().split("\n") for f in FILES}
    M = [x for x in M if (x[0], LN[x[0]][x[1]].strip(), x[2].strip()) in old and "assert" not in x[2] and LN[x[0]][x[1]].find("assert") < 0 and "capacity" not in x[2] and "cross/" not in x[0]]
if w < 0:
    print(len(M)); sys.exit()
shutil.rmtree(base, ignore_errors=True)
os.makedirs(base)
sh("cp -a /repo %s/repo; mkdir v; cp -a /verif/dsim /verif/simseam /verif/vendor /verif/check.sh /verif/known_findings.txt v/; mkdir v/evidence; sed -i s#/repo/#%s/repo/# v/dsim/Cargo.toml" % (base, base))
env = "VERIF_SEED=1 VERIF_TIER=quick DSIM_RUNS=%s DSIM_JOBS=1 " % runs
FIRST = {"particleswarm/mod.rs": "C07 C02 C08 C28 C12 C01 C13", "particleswarm/initializing/mod.rs": "C20 C05", "particleswarm/postmove/mod.rs": "C05 C20", "particleswarm/postvelocitycalc/mod.rs": "C09", "particleswarm/velocitycalc/mod.rs": "C08",
         "genetic/mod.rs": "C06 C03 C28 C12 C01 C13 C21", "genetic/selection/mod.rs": "C04 C22", "genetic/selection/vec_float.rs": "C22", "genetic/pre_birth/vec_float.rs": "C22", "genetic/pairing/mod.rs": "C19", "genetic/mutation/mod.rs": "C18", "genetic/creation/vec_float.rs": "C20", "genetic/cross/mod.rs": "C18",
         "tools/mod.rs": "C20", "tools/logging/mod.rs": "C14 C15", "tools/stopchecker/mod.rs": "C10", "tools/statistics/mod.rs": "C16 C17"}
ids = json.loads("[" + ",".join('"C%02d"' % i for i in range(1, 29) if i not in (23, 24)) + "]")
AG = "again." if "--again" in sys.argv else ""
res = open("/tmp/mut/%sres.%d" % (AG, w), "a", buffering=1)
done = set()
for g in glob.glob("/tmp/mut/%sdone.*" % AG):
    done |= set(open(g).read().split("\n"))
dn = open("/tmp/mut/%sdone.%d" % (AG, w), "a", buffering=1)
for k, (f, i, new, kind) in enumerate(M):
    if k % n != w: continue
    key = "%s:%d:%s" % (f, i, new.strip())
    if key in done: continue
    dn.write(key + "\n")
    p = base + "/repo/optlib/src/" + f
    src = open(p).read()
    L = src.split("\n"); old = L[i]; L[i] = new
    open(p, "w").write("\n".join(L))
    try:
        rc, o = sh("cd v && ./check.sh --build")
        if rc: continue
        rc, o = sh("cd repo && CARGO_TARGET_DIR=%s/t timeout 300 cargo test --offline -q -p optlib --lib" % base)
        if rc: res.write("tests  %s:%d: %s -> %s\n" % (f, i + 1, old.strip(), new.strip())); continue
        hit = []
        first = FIRST.get(f, "").split()
        for c in first + [c for c in ids if c not in first]:
            rc, o = sh("cd v && " + env + "timeout 120 ./target/debug/dsim check " + c, 200)
            if rc == 1 and "VIOLATION" in o: hit.append(c)
            elif rc != 0: hit.append(c + "?%d" % rc)
            if hit: break
        res.write("%s %s:%d: %s -> %s   %s\n" % ("caught" if hit else "ALIVE ", f, i + 1, old.strip(), new.strip(), hit))
    finally:
        open(p, "w").write(src)
