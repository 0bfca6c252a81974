"""Common machinery: builds the library from /repo's working tree, records traces with the
driver, has TLC check them against the specification, and writes verdicts and evidence."""
import os, sys, json, subprocess, hashlib, shutil, time, random, re, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
REPLAY = os.path.join(VERIF, "replay")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
JARS = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 8

class Infra(Exception):
    """The check itself could not run (never a verdict about the code)."""

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)

# ---------------------------------------------------------------- builds
BASE = ["-O2", "-g"]
ASM = ["-DRACRYPT_USE_ASM"]
VARIANTS = {
    "base":   BASE + ASM,                                   # what CMakeLists.txt builds
    "nd":     BASE + ASM + ["-DNDEBUG"],
    "port":   BASE,                                          # no hardware acceleration
    "w32":    BASE + ASM + ["-DBN_WORD_BYTE=4"],
    "no128":  BASE + ASM + ["-U__SIZEOF_INT128__"],
    "mintab": BASE + ["-DRACRYPT_AES_MIN_TABLE", "-DRACRYPT_PRIME_MIN_TABLE"],
    "noroll": BASE,
    "verify": BASE + ASM + ["-DRACRYPT_RSA_VERIFY_KEY", "-DNDEBUG"],
    "w32nd":  BASE + ["-DBN_WORD_BYTE=4", "-DNDEBUG"],
    "no128nd": BASE + ["-U__SIZEOF_INT128__", "-DNDEBUG"],
    "asan":   ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-DNDEBUG"] + ASM,
    "asan32": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-DNDEBUG", "-DBN_WORD_BYTE=4"],
    "tsan":   ["-O1", "-g", "-fsanitize=thread"] + ASM,
}

def sources():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    return sorted(set(s for s in re.findall(r"src/[a-z0-9_/]+\.c", txt) if "test" not in s and "arm64" not in s))

def tree_hash():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness")):
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h")):
                    h.update(f.encode() + b"\0" + open(os.path.join(r, f), "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "CMakeLists.txt"), "rb").read())
    return h.hexdigest()[:20]

def build(variant, harness="drv", extra=()):
    """Build the library in a variant and link a harness with it; returns the executable."""
    flags = VARIANTS[variant]
    root = os.path.join(BUILD, tree_hash())
    if not os.path.isdir(root):
        os.makedirs(root, exist_ok=True)
        # keep the cache small: drop builds of other trees
        for d in os.listdir(BUILD):
            old = os.path.join(BUILD, d)
            if d != os.path.basename(root) and re.fullmatch(r"[0-9a-f]{20}", d) and os.path.isdir(old) and time.time() - os.path.getmtime(old) > 1800:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    exe = os.path.join(root, variant, harness)
    if os.path.exists(exe):
        return exe
    out = os.path.join(root, variant)
    os.makedirs(out, exist_ok=True)
    src = REPO
    if variant == "noroll":      # the compression functions without unrolling: a header switch
        src = os.path.join(out, "tree")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(src, "src"))
            p = os.path.join(src, "src/include/racrypt.h")
            t = open(p).read()
            open(p, "w").write(re.sub(r"(?m)^\s*#define\s+RACRYPT_DIGEST_UNROLL\b.*$", "", t))
    inc = ["-I" + os.path.join(src, "src/include")]
    lib = os.path.join(out, "lib.a")
    if not os.path.exists(lib):
        def one(s):
            o = os.path.join(out, s.replace("/", "_")[:-2] + ".o")
            r = sh(["gcc", "-w"] + flags + inc + ["-c", os.path.join(src, s), "-o", o])
            if r.returncode:
                raise Infra("compile %s (%s): %s" % (s, variant, r.stdout.decode()[-2000:]))
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, sources()))
        tmp = lib + ".%d.tmp" % os.getpid()
        r = sh(["ar", "rcs", tmp] + objs)
        if r.returncode: raise Infra("ar: " + r.stdout.decode())
        os.rename(tmp, lib)
    wrap = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
    if harness == "drv":
        wrap.append("-Wl," + ",".join("--wrap=" + f for f in "open open64 __open_2 __open64_2 read __read_chk close getrandom getentropy fopen clock_gettime gettimeofday time times".split()))
    tmp = exe + ".%d.tmp" % os.getpid()
    hflags = [f for f in flags]
    r = sh(["gcc", "-w"] + hflags + inc + list(extra) + wrap + ["-o", tmp, os.path.join(VERIF, "harness", harness + ".c"), lib, "-lpthread", "-lm"])
    if r.returncode:
        raise Infra("link %s: %s" % (harness, r.stdout.decode()[-3000:]))
    os.rename(tmp, exe)
    return exe

def java_classes():
    out = os.path.join(BUILD, "java")
    srcs = sorted(os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java"))
    stamp = os.path.join(out, "stamp")
    h = hashlib.sha256(b"\0".join(open(f, "rb").read() for f in srcs)).hexdigest()
    if not (os.path.exists(stamp) and open(stamp).read() == h):
        os.makedirs(out, exist_ok=True)
        r = sh(["javac", "-cp", JARS, "-d", out] + srcs)
        if r.returncode: raise Infra("javac: " + r.stdout.decode())
        open(stamp, "w").write(h)
    return out

# ---------------------------------------------------------------- TLC
class TlcResult:
    pass

def tlc(module, cfg=None, env=None, workers=NCPU, timeout=800, heap="6g", args=()):
    work = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    cfgp = cfg or os.path.join(SPEC, module + ".cfg")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", java_classes() + ":" + JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", work, "-noGenerateSpecTE", "-deadlock", "-config", cfgp] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env: e.update(env)
    t0 = time.time()
    try:
        r = sh(cmd, timeout=timeout, env=e, cwd=work)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timeout on " + module)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    res = TlcResult()
    res.out = out
    res.rc = r.returncode
    res.wall = time.time() - t0
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    res.generated, res.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    res.ok = "Model checking completed. No error has been found." in out or "Finished computing initial states" in out and r.returncode == 0
    res.lines = [l[1:-1] if l.startswith('"') and l.endswith('"') else l for l in out.splitlines()]
    return res

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run", dir=BUILD)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

# ---------------------------------------------------------------- sessions
class Session:
    __slots__ = ("sid", "cmds", "tag")
    def __init__(self, cmds, tag=""):
        self.sid = 0; self.cmds = list(cmds); self.tag = tag

def script(sessions):
    return "".join("S %d\n%s\n" % (s.sid, "\n".join(s.cmds)) for s in sessions)

def number(sessions):
    for i, s in enumerate(sessions): s.sid = i + 1
    return sessions

def _run_driver(exe, sessions, opts, timeout, env=None):
    d = tempfile.mkdtemp(prefix="drv", dir=scratch())
    sp, op = os.path.join(d, "script"), os.path.join(d, "out")
    open(sp, "w").write(script(sessions))
    try:
        r = sh([exe, sp, op] + list(opts), timeout=timeout, env=env)
        rc, txt = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        rc, txt = "timeout", (x.stdout or b"").decode(errors="replace")
    lines = []
    if os.path.exists(op):
        for l in open(op):
            if l.endswith("}\n"): lines.append(l)
    shutil.rmtree(d, ignore_errors=True)
    return rc, lines, txt

SANENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1",
          "UBSAN_OPTIONS": "halt_on_error=1", "TSAN_OPTIONS": "halt_on_error=0:exitcode=66"}

def record(exe, sessions, opts=(), timeout=90, shards=NCPU, one_timeout=45):
    """Run the sessions; returns (trace lines, crashes).  A crash or hang is attributed to the session that
    was running and confirmed by running that session alone."""
    env = dict(os.environ); env.update(SANENV)
    lines, crashes = [], []
    found = []             # confirmed failures of all shards; a hang ends the recording, so do several crashes
    def work(part):
        ls, cr = [], []
        part = list(part)
        while part and not ("timeout" in found or len(found) >= 12):
            rc, got, txt = _run_driver(exe, part, opts, timeout, env)
            if rc == 3: raise Infra("driver: " + txt[-500:])
            ls += got
            if rc == 0: break
            done = len(got)
            if done >= len(part):
                bad = part[-1]; rest = []
            else:
                bad = part[done]; rest = part[done + 1:]
            rc2, got2, txt2 = _run_driver(exe, [bad], opts, one_timeout, env)
            if rc2 == 0:
                ls += got2           # not reproduced alone
                if rc != "timeout":
                    rc3, got3, txt3 = _run_driver(exe, part[:done + 1], opts, timeout, env)
                    if rc3 not in (0, "timeout"):
                        cr.append((bad, rc3, txt3)); found.append(rc3)
            else:
                cr.append((bad, rc2, txt2)); found.append(rc2)
            if len(cr) >= 5: break
            part = rest
        return ls, cr
    n = max(1, min(shards, len(sessions)))
    parts = [sessions[i::n] for i in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
        for ls, cr in ex.map(work, parts):
            lines += ls; crashes += cr
    lines.sort(key=lambda l: int(re.match(r'\{"sid":(\d+)', l).group(1)))
    return lines, crashes

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid; self.level = level; self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.hung = False
        self.samples = []; self.notes = []; self.viol = []; self.known = []
        self.extra = {}
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.assumptions = []
        shutil.rmtree(os.path.join(REPLAY, pid), ignore_errors=True)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- design-level models
    def model(self, module, cfg=None, what="", env=None, timeout=600, expect_lines=False):
        r = tlc(module, cfg and os.path.join(SPEC, cfg), env=env, timeout=timeout)
        if not r.ok:
            raise Infra("model %s: %s" % (module, r.out[-3000:]))
        self.states += r.distinct; self.transitions += r.generated
        self.extra.setdefault("models", []).append({"module": module, "cfg": cfg or module + ".cfg", "distinct_states": r.distinct, "transitions": r.generated, "what": what})
        self.log("model", module, cfg or "", "distinct", r.distinct, "generated", r.generated, "%.1fs" % r.wall)
        return r

    # -- conformance
    def conform(self, module, variant, sessions, opts=(), what="", env=None, **kw):
        return self.conform_all(module, [(variant, sessions, opts, what)], env=env, **kw)

    def conform_all(self, module, parts, env=None, timeout=90, harness="drv", tlc_timeout=700, one_timeout=45, shards=NCPU, collect=False):
        """parts: (build variant, sessions, driver options, what).  Records all of them and has TLC check all
        traces in one run."""
        lines, meta = [], []
        t1 = time.time()
        for variant, sessions, opts, what in parts:
            if not sessions: continue
            if self.hung: break          # a hang is already confirmed: further recordings would only wait
            number(sessions)
            ls, crashes = record(build(variant, harness), sessions, opts, timeout, shards, one_timeout)
            by = {s.sid: s for s in sessions}
            if any(rc == "timeout" for s, rc, txt in crashes): self.hung = True
            for s, rc, txt in crashes[:5]:
                self.violation("%s: the code %s in session [%s] (%s build): %s" % (what, "hangs" if rc == "timeout" else "crashes (status %s)" % rc, s.tag, variant, _crash_summary(txt)),
                               s, variant, opts, module, None, txt[-4000:])
            for l in ls:
                lines.append(l)
                meta.append((variant, by.get(int(re.match(r'\{"sid":(\d+)', l).group(1))), opts, what))
        t2 = time.time()
        rejected = []
        if lines: rejected = self._check_lines(module, lines, meta, env, tlc_timeout, collect)
        self.log("conform", "; ".join("%s (%s, %d sessions)" % (w, v, len(s)) for v, s, o, w in parts), "traces", len(lines), "record %.1fs" % (t2 - t1), "check %.1fs" % (time.time() - t2))
        return rejected if collect else lines

    def _check_lines(self, module, lines, meta, env, tlc_timeout, collect):
        p = tempfile.mktemp(prefix="trace", suffix=".ndjson", dir=scratch())
        open(p, "w").writelines(lines)
        e = {"TRACE": p}
        if env: e.update(env)
        r = tlc(module, env=e, timeout=tlc_timeout if THOROUGH else max(60, min(tlc_timeout, 840 - (time.time() - self.t0))))
        rej, acc = _verdicts(r)
        if not r.ok or len(acc) + len(rej) < len(lines):
            raise Infra("trace check %s: %d lines, %d accepted, %d rejected\n%s" % (module, len(lines), len(acc), len(rej), r.out[-3000:]))
        os.unlink(p)
        self.states += r.distinct; self.transitions += r.generated
        self.traces += len(acc)
        c = self.extra.setdefault("conformance", [])
        bad = {k - 1 for k, m in rej}
        for key in dict.fromkeys((m[0], m[3]) for m in meta):
            idx = [i for i, m in enumerate(meta) if (m[0], m[3]) == key]
            c.append({"spec": module, "build": key[0], "what": key[1], "traces": len(idx), "accepted": len([i for i in idx if i not in bad]), "rejected": len([i for i in idx if i in bad])})
            if len(self.samples) < 8:
                i = idx[self.rng.randrange(len(idx))]
                self.samples.append({"build": key[0], "what": key[1], "session": (meta[i][1].cmds[:12] if meta[i][1] else []), "trace": lines[i][:600]})
        if collect:
            return [(meta[k - 1], lines[k - 1], msg) for k, msg in rej]
        # the verdict must be reproducible on the trace alone
        for k, msg in rej[:5]:
            l = lines[k - 1]
            q = tempfile.mktemp(prefix="one", suffix=".ndjson", dir=scratch())
            open(q, "w").write(l)
            e2 = dict(e); e2["TRACE"] = q
            rej2, _ = _verdicts(tlc(module, env=e2, workers=1))
            if not rej2: raise Infra("verdict not reproduced: " + msg)
            variant, s, opts, what = meta[k - 1]
            self.violation("%s (%s build, session [%s]): %s" % (what, variant, s.tag if s else "", msg), s, variant, opts, module, l, msg)
        return rej

    def known_finding(self, key, text):
        """True if this failure is listed in the committed known-findings file; then it is only reported"""
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith("KNOWN-FINDING: property=%s %s " % (self.pid, key)):
                print(l.strip()); self.known.append(text)
                return True
        return False

    def violation(self, text, session=None, variant="", opts=(), module="", trace=None, detail=""):
        d = os.path.join(REPLAY, self.pid); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%d" % (len(self.viol) + 1))
        with open(p + ".json", "w") as f:
            json.dump({"property": self.pid, "text": text, "build": variant, "flags": VARIANTS.get(variant), "driver_options": list(opts), "spec": module,
                       "script": script([session]) if session else "", "detail": detail, "trace": trace}, f, indent=1)
        self.viol.append((text, p + ".json"))

    def finish(self, explanation=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "samples": self.samples or self.notes[:3]}
        if explanation: cov["explanation"] = explanation
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t, p in self.viol:
            print("  " + t[:1500])
        for t, p in self.viol[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, VERIF)))
        print("[%s] %s: %d traces of the code checked, %d states, %.1fs" % (self.pid, "VIOLATED" if self.viol else "held", self.traces, self.states, time.time() - self.t0))
        return 1 if self.viol else 0

def _verdicts(r):
    rej, acc = [], []
    for l in r.lines:
        m = re.match(r'REJECT (\d+) (.*)', l)
        if m: rej.append((int(m.group(1)), m.group(2).replace('\\"', '"'))); continue
        m = re.match(r'ACCEPT (\d+)', l)
        if m: acc.append(int(m.group(1)))
    rej.sort()
    return rej, acc

def _crash_summary(txt):
    m = re.search(r"(ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|.*Assertion .*failed.*|.*runtime error.*)", txt)
    if m:
        s = re.search(r"#\d+ 0x[0-9a-f]+ in ((?!__|main)\w+) (\S+)", txt[m.start():])
        return (m.group(1)[:300] + (" in " + s.group(1) if s else ""))
    return txt.strip()[-300:]

def hx(b): return bytes(b).hex() if len(b) else "-"
