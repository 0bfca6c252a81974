#!/usr/bin/env python3
"""plant.py <bug.py>...: makes /verif/seeded/<id>/ from a description and tries it in a scratch copy:
the patch builds, the stable tests pass, the demonstration passes without and fails with it, and what the checks say.
A description defines: ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (C source), optional FLAGS, CHECKS."""
import sys, os, subprocess, json, shutil, glob, re
R = "/repo"; OUT = "/verif/seeded"; TMP = "/tmp/plant"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds here.  Runs in the root of the repository.
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
SRC=$(ls src/com/*.c src/pk/*.c src/digest/*.c src/cipher/*.c | grep -v arm64)
gcc -O2 -w %s -Isrc/include -o "$D/demo" "$H/demo.c" $SRC -lpthread -lm || exit 3
cd "$D" && timeout 250 ./demo
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main(f, opts):
    b = {}; sys.path.insert(0, os.path.dirname(os.path.abspath(f)))
    exec(open(f).read(), b)
    d = os.path.join(OUT, b["ID"]); os.makedirs(d, exist_ok=True)
    w = os.path.join(TMP, b["ID"]); shutil.rmtree(w, ignore_errors=True); os.makedirs(TMP, exist_ok=True)
    sh("git -C %s worktree prune; cp -a %s %s; rm -rf %s/_build" % (R, R, w, w))
    open(d + "/demo.sh", "w").write(DEMO_SH % b.get("FLAGS", "-DRACRYPT_USE_ASM"))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.c", "w").write(b["DEMO"])
    clean = sh("bash %s/demo.sh" % d, cwd=w)
    for path, old, new in b["EDITS"]:
        p = os.path.join(w, path); t = open(p, newline="").read()
        crlf = "\r\n" in t
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = t.count(old)
        if n != 1: print(b["ID"], "EDIT matches %d times: %r" % (n, old)); return
        open(p, "w", newline="").write(t.replace(old, new))
    open(d + "/patch.diff", "wb").write(subprocess.run("git diff --no-color", shell=True, cwd=w, stdout=subprocess.PIPE).stdout)
    json.dump({"property": b["PROP"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    bad = sh("bash %s/demo.sh" % d, cwd=w)
    print(b["ID"], "demo clean", clean.returncode, clean.stdout.decode(errors="replace")[-150:].strip(), "| patched", bad.returncode, bad.stdout.decode(errors="replace")[-150:].strip())
    if "notest" not in opts:
        vp = w + "_vp"; shutil.rmtree(vp, ignore_errors=True); shutil.copytree("/opt/vp", vp)
        sh("grep -rlE '/repo|/opt/vp' %s | xargs sed -i 's#/opt/vp#%s#g; s#/repo#%s#g'" % (vp, vp, w))
        t = sh("bash %s/test.sh %s/out.json" % (vp, vp), cwd=w)
        try:
            o = json.load(open(vp + "/out.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            miss = st - set(o["passed"])
            print(b["ID"], "tests", "PASS" if not miss else "FAIL %s" % sorted(miss)[:4])
        except Exception as x: print(b["ID"], "tests ?", x, t.stdout.decode()[-300:])
        shutil.rmtree(vp, ignore_errors=True)
    for c in b.get("CHECKS", [b["PROP"]]):
        r = sh("python3 /verif/bin/check.py " + c, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"))
        o = r.stdout.decode(errors="replace")
        v = [l for l in o.splitlines() if not l.startswith("[")]
        print(b["ID"], c, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, (v[0][:220] if v else ""), o.splitlines()[-1][-60:] if o else "")
    shutil.rmtree(w, ignore_errors=True)
    sys.stdout.flush()
opts = [a for a in sys.argv[1:] if not a.endswith(".py")]
for f in sys.argv[1:]:
    if f.endswith(".py"): main(f, opts)
