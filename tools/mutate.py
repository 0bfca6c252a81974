#!/usr/bin/env python3
"""Mutation screening of the checks (a development aid; no check uses it).
   mutate.py FILE N [SEED] [WORKERS]: N random one-place mutations of a source file, each in a scratch copy of the
   repository; the checks for the file are run in order until one reports.  Survivors are printed with their diff."""
import sys, os, re, random, subprocess, shutil, json, time, threading, queue
FILE, N = sys.argv[1], int(sys.argv[2]); SEED = sys.argv[3] if len(sys.argv) > 3 else "1"; WORKERS = int(sys.argv[4]) if len(sys.argv) > 4 else 2
RANGE = os.environ.get("LINES")
MAP = {"bignumber.c": "C01 C02 C03 C04 C05 C06 C09 C21 C08 C22", "gcd.c": "C05", "montexpmod.c": "C06 C23 C22", "prime.c": "C08 C07 C22 C26", "random.c": "C20 C21 C26 C23 C22", "asn1.c": "C12 C11 C22",
       "rsa.c": "C09 C10 C11 C12 C22 C23 C04", "block_cipher.c": "C14 C13 C15 C16", "rc4.c": "C17 C22 C23"}
CIPH = "C16 C13 C15 C22 C23"; DIG = "C19 C18 C22 C23"
base = os.path.basename(FILE)
checks = (MAP.get(base) or (CIPH if "/cipher/" in FILE else DIG)).split()
if os.environ.get("CHECKS"): checks = os.environ["CHECKS"].split()
r = random.Random(SEED)
src = open(os.path.join("/repo", FILE)).read().split("\n")
muts = []
intable = False; incom = False
for i, l in enumerate(src):
    s = l.strip()
    if RANGE and not (int(RANGE.split("-")[0]) <= i + 1 <= int(RANGE.split("-")[1])): continue
    if s.startswith("/*"): incom = True
    if incom:
        if "*/" in s: incom = False
        continue
    if not s or s.startswith(("#", "//", "assert", "}", "{")) or "assert" in s: continue
    if re.match(r"^(0x[0-9a-fA-F]+U?L*,?\s*)+(//.*)?$", s) or s.startswith("static const"): 
        continue
    code = re.sub(r"//.*", "", l)
    def add(a, b, new): muts.append((i, l[:a] + new + l[b:]))
    for m in re.finditer(r"<=|>=|==|!=|&&|\|\||<<|>>|[-+]=|(?<![-<>=])[<>](?![<>=])|(?<![-+eE(,=])\s[-+]\s(?![-+=])|\s&\s|\s\|\s|\s\^\s|\^=|\|=|&=", code):
        t = m.group(0); a, b = m.span()
        alt = {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<<": [">>"], ">>": ["<<"], "+=": ["-=", "="], "-=": ["+=", "="], "<": ["<="], ">": [">="], " + ": [" - "], " - ": [" + "],
               " & ": [" | "], " | ": [" & "], " ^ ": [" | "], "^=": ["|="], "|=": ["&="], "&=": ["|="]}.get(t, [])
        if code.lstrip().startswith("#"): continue
        for x in alt: add(a, b, x)
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
        v = int(m.group(1)); a, b = m.span()
        for x in {v + 1, v - 1} - {-1}: add(a, b, str(x))
    for m in re.finditer(r"(?<!\w)0x([0-9a-fA-F]+)", code):
        v = int(m.group(1), 16); a, b = m.span()
        add(a, b, hex(v ^ (1 << r.randrange(max(1, v.bit_length())))))
    if re.match(r"^[\w>\-\[\]\.\s\*\+\(\)]+(\s*[-+|&^<>]*=\s*|\().*;\s*$", code) and not re.match(r"^\s*(return|goto|int|struct|BN_|uint|const|static|u?int\d+_t|bn_\w+|size_t)\b.*", code):
        add(len(l) - len(l.lstrip()), len(l), ";")
    m = re.match(r"^(\s*(?:else )?if \()(.*)(\).*)$", code)
    if m and m.group(2).count("(") == m.group(2).count(")"):
        muts.append((i, m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3)))
        muts.append((i, m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3)))
    if s in ("break;", "continue;"): muts.append((i, ""))
random.Random(SEED).shuffle(muts)
if N: muts = muts[:N]
print(len(muts), "mutants of", FILE, "checks", checks, flush=True)
q = queue.Queue()
for k, m in enumerate(muts): q.put((k, m))
lock = threading.Lock(); stat = {"killed": 0, "compile": 0, "infra": 0, "survived": 0}
tag = "%s.%s" % (base, SEED)
def worker(w):
    d = "/tmp/mut/%s.%d" % (tag, w)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", ".build", "--exclude", "seeded", "--exclude", "replay", "--exclude", "evidence", "/verif/", d + "/verif/"], check=True) if shutil.which("rsync") else subprocess.run("mkdir -p %s/verif && cd /verif && tar cf - --exclude=.git --exclude=.build --exclude=seeded --exclude=replay --exclude=evidence . | tar xf - -C %s/verif" % (d, d), shell=True, check=True)
    subprocess.run("mkdir -p %s/repo && cd /repo && tar cf - --exclude=.git --exclude=_build . | tar xf - -C %s/repo" % (d, d), shell=True, check=True)
    p = d + "/verif/vlib/checks.py"; t = open(p).read(); open(p, "w").write(t.replace("        models(c)\n", ""))
    f = os.path.join(d, "repo", FILE)
    env = dict(os.environ); env["VERIF_REPO"] = d + "/repo"; env["VERIF_SEED"] = env.get("VERIF_SEED", "1")
    while True:
        try: k, (i, new) = q.get_nowait()
        except queue.Empty: break
        lines = list(src); lines[i] = new
        open(f, "w").write("\n".join(lines))
        c = subprocess.run(["gcc", "-w", "-O0", "-I" + d + "/repo/src/include", "-c", f, "-o", d + "/x.o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t0 = time.time(); res = []; verdict = "survived"
        if c.returncode: verdict = "compile"
        else:
            for ch in checks:
                try:
                    x = subprocess.run(["python3", "bin/check.py", ch], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                    rc = x.returncode
                except subprocess.TimeoutExpired: rc = "timeout"
                res.append("%s=%s" % (ch, rc))
                if rc == 1: verdict = "killed"; break
                if rc not in (0, 1): verdict = "infra"; open("/tmp/mut/infra.%s.%d" % (tag, k), "wb").write(x.stdout if rc != "timeout" else b"timeout")
        with lock:
            stat[verdict] += 1
            if verdict in ("survived", "infra"):
                print("%s #%d %s:%d %s\n   - %s\n   + %s" % (verdict.upper(), k, FILE, i + 1, " ".join(res), src[i].strip(), new.strip()), flush=True)
            else: print("%s #%d line %d %s %.0fs" % (verdict, k, i + 1, " ".join(res[-1:]), time.time() - t0), flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(WORKERS)]
[t.start() for t in ts]; [t.join() for t in ts]
print(FILE, stat, flush=True)
