"""One function per property: which executions are recorded and checked against the specification."""
from .core import *
from .gen import *
from .liars import LIARS
from . import walks

T = "TraceRaCrypt"
def pick(q, t): return t if THOROUGH else q

# ------------------------------------------------------------------ arithmetic
def c01(c):
    n = pick(900, 6000)
    c.conform_all(T, [("base", arith(c.rng, 64, n), (), "64-bit words"),
                      ("w32", arith(c.rng, 32, n), (), "32-bit words"),
                      ("base", arith(c.rng, 64, n // 10, maxw=33, big=True), (), "long operands"),
                      ("w32", arith(c.rng, 32, n // 10, maxw=40, big=True), (), "long operands, 32-bit words"),
                      ("base", arith(c.rng, 64, n // 40, maxw=c.rng.randint(64, 70), big=True) + arith(c.rng, 64, n // 60, maxw=260, big=True), (), "very long operands"),
                      ("w32", arith(c.rng, 32, n // 60, maxw=c.rng.randint(128, 140), big=True) + arith(c.rng, 32, n // 90, maxw=300, big=True), (), "very long operands, 32-bit words")])

def c02(c):
    n = pick(900, 6000)
    c.conform_all(T, [("base", division(c.rng, 64, n), (), "64-bit words"),
                      ("w32", division(c.rng, 32, n), (), "32-bit words"),
                      ("no128", division(c.rng, 64, n), (), "portable 128-bit arithmetic"),
                      ("base", division(c.rng, 64, n // 10, maxw=20), (), "long operands"),
                      ("base", division(c.rng, 64, n // 30, maxw=66) + division(c.rng, 64, n // 90, maxw=140), (), "very long operands"),
                      ("w32", division(c.rng, 32, n // 60, maxw=130), (), "very long operands, 32-bit words"),
                      ("nd", divzero(c.rng, 64, 24), (), "division by zero")])

def c03(c):
    n = pick(800, 6000)
    c.conform_all(T, [("base", codec(c.rng, 64, n), (), "64-bit words"),
                      ("w32", codec(c.rng, 32, n), (), "32-bit words"),
                      ("base", codec(c.rng, 64, n // 5, maxb=90), (), "long encodings"),
                      ("base", codec(c.rng, 64, n // 40, maxb=2100), (), "very long encodings"),
                      ("w32", codec(c.rng, 32, n // 40, maxb=1100), (), "very long encodings, 32-bit words")])

def c04(c):
    n = pick(800, 6000)
    c.conform_all(T, [("asan", capacity(c.rng, 64, n), (), "64-bit words, address sanitizer"),
                      ("asan32", capacity(c.rng, 32, n), (), "32-bit words, address sanitizer"),
                      ("asan", sizes(c.rng, 64), (), "numbers of every size"), ("asan32", sizes(c.rng, 32), (), "numbers of every size, 32-bit words"),
                      ("asan", tight(c.rng, 64, n // 3), (), "exactly fitting results"),
                      ("asan32", tight(c.rng, 32, n // 3), (), "exactly fitting results, 32-bit words")])

def c05(c):
    n = pick(800, 6000)
    c.conform_all(T, [("base", small_gcds(pick(40, 80)), (), "every small pair"),
                      ("base", gcds(c.rng, 64, n), (), "64-bit words"),
                      ("w32", gcds(c.rng, 32, n, maxw=7), (), "32-bit words"),
                      ("no128", gcds(c.rng, 64, n // 2), (), "portable 128-bit arithmetic"),
                      ("base", gcds(c.rng, 64, n // 10, maxw=17), (), "long operands"),
                      ("base", gcds(c.rng, 64, n // 40, maxw=66), (), "very long operands"),
                      ("w32", gcds(c.rng, 32, n // 60, maxw=66), (), "very long operands, 32-bit words"),
                      ("asan", gcds(c.rng, 64, n // 4), (), "address sanitizer"),
                      ("nd", gcd_errors(), (), "zero operands")])

def c06(c):
    n = pick(700, 5000)
    c.conform_all(T, [("base", small_expmods(list(range(3, pick(30, 80), 2)), pick(9, 14), pick(20, 36)), (), "every small case"),
                      ("base", expmods(c.rng, 64, n), (), "64-bit words"),
                      ("w32", expmods(c.rng, 32, n, maxw=7, maxe=3), (), "32-bit words"),
                      ("no128", expmods(c.rng, 64, n), (), "portable 128-bit arithmetic"),
                      ("base", expmods(c.rng, 64, n // 10, maxw=17, maxe=1), (), "long moduli"),
                      ("base", expmods(c.rng, 64, n // 20, maxw=66, maxe=1) + expmods(c.rng, 64, n // 60, maxw=33, maxe=33), (), "very long moduli and exponents"),
                      ("w32", expmods(c.rng, 32, n // 50, maxw=66, maxe=2), (), "very long moduli, 32-bit words"),
                      ("asan", expmods(c.rng, 64, n // 4), (), "address sanitizer"),
                      ("nd", expmod_errors(c.rng, 64, n // 5), (), "undefined cases")])

def factor(n):
    for p in SMALLP:
        if n % p == 0 and n != p: return p
    return 0
SMALLP = sieve(2000)

def merse_p(k): return (1 << k) - 1
def modp(b):
    """the prime of the MODP group of b bits (RFC 3526)"""
    def atan_inv(n, one):
        s = t = one // n; k = 3; sg = -1
        while t:
            t //= n * n; s += sg * (t // k); k += 2; sg = -sg
        return s
    one = 1 << (b + 64); pi = 4 * (4 * atan_inv(5, one) - atan_inv(239, one))       # pi * 2^(b+64)
    return (1 << b) - (1 << (b - 64)) - 1 + (1 << 64) * ((pi >> (b + 64 - (b - 130))) + {2048: 124476, 3072: 1690314, 4096: 240904}[b])

def c07(c):
    r = c.rng
    P = sieve(pick(1500, 20000))
    small = [(n, factor(n)) for n in range(-3, pick(1500, 8000))]
    primes = [(p, 0) for p in P[-200:] + r.sample(P, 100)]
    bigp = [(nextprime(r.getrandbits(b) | 1 << (b - 1)), 0) for b in [16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 192, 256, 320] * pick(6, 20)]
    merse = [((1 << k) - 1, 0) for k in (2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521)] + [((1 << 64) - 59, 0), ((1 << 32) - 5, 0), (65537, 0), ((1 << 128) - 159, 0), ((1 << 64) + 13, 0), ((1 << 32) + 15, 0)]
    carm = [(n, factor(n) or pollard(n)) for n in CARMICHAEL + PSEUDO]
    def semi():
        b = r.choice([8, 10, 16, 31, 32, 33, 64, 96, 128])
        p = nextprime(r.getrandbits(b) | 1 << (b - 1)); q = nextprime(r.getrandbits(b) | 1 << (b - 1))
        k = r.random()
        if k < 0.35: q = nextprime(p + 2)
        elif k < 0.55: return p * p, p
        elif k < 0.75:                                # p, 2p-1: many liars
            while not mr(2 * p - 1): p = nextprime(p + 2)
            return p * (2 * p - 1), p
        return p * q, p
    comps = [semi() for _ in range(pick(500, 4000))]
    even = [(2 * r.getrandbits(b), 2) for b in (5, 31, 32, 63, 64, 65, 100, 200)]
    neg = [(-p, 0) for p, f in r.sample(bigp, 6)] + [(-2, 0), (-3, 0), (-5, 0), (-7, 0), (-9, 3), (-1, 0), (-(1 << 64) + 59, 0)]
    def proth(w):                                     # n = k 2^s + 1 with many factors two in n - 1, around multiples of the word length
        s = r.choice([w - 1, w, w, w + 1, 2 * w, 3 * w + r.randrange(-2, 3), r.randrange(2, 3 * w)])
        kb = r.choice([2, 5, 16, 32, 64, 100]); k = r.getrandbits(kb) | 1
        if r.random() < 0.5:
            while not mr((k << s) + 1): k += 2
            return (k << s) + 1, 0
        while True:
            n = (k << s) + 1; f = factor(n)
            if f: return n, f
            k += 2
    proths = [proth(64) for _ in range(pick(80, 500))]; proths32 = [proth(32) for _ in range(pick(50, 300))]
    # around every size at which the number of rounds or the table in use may change
    S = [200, 255, 256, 257, 300, 400, 511, 512, 513, 600, 767, 768, 900, 1000, 1023, 1024, 1025, 1100, 1280, 1500] + pick([1536, 2048], [1535, 1536, 1537, 2047, 2048, 2049, 3072])
    hugep = [(sized_primes(r, b, 1)[0], 0) for b in S]
    half = {b: sized_primes(r, b, 2) for b in (100, 128, 150, 200, 256, 300, 384, 512, 513, 550, 640, 768) + pick((), (1024,))}
    hugec = [(p[0] * p[1], p[0]) for p in half.values()] + [(p[0] ** 2, p[0]) for p in half.values()] + [(hugep[i][0] * 65537, 65537) for i in range(len(S))] + [(p[0] * 1009, 1009) for p in hugep[::3]]
    for b in (256, 512, 768):                          # p (2p-1): the most liars among large numbers
        p = sized_primes(r, b, 1)[0]
        if b == 256 or THOROUGH:
            while not mr(2 * p - 1): p = nextprime(p + 2)
            hugec.append((p * (2 * p - 1), p))
    # sizes beyond those of the repository's own keys: Mersenne and MODP-group (RFC 3526) primes, multiples of 65537
    beyond = [(merse_p(k), 0) for k in pick((2203, 3217), (2203, 2281, 3217, 4253, 4423))] + [(modp(b), 0) for b in (3072, 4096)]
    beyondc = [((r.getrandbits(b - 17) | 1 | 1 << (b - 18)) * 65537, 65537) for b in (1600, 2100, 2600, 3072, 3100, 4096, 4100, 5200, 6200, 8200)]
    # the acceptance frequency of the numbers with the most liars, at every size at which the number of rounds may change
    liars = [(p * (2 * p - 1), p, b) for b, p in LIARS]
    if not THOROUGH: liars = [x for x in liars if x[2] < 400 or x[2] in (450, 500, 511, 512, 513, 550, 700)]
    freq = [s for n, p, b in liars for s in prime_tests(r, 64, [(n, p)], (1536 if b <= 128 else 1024) if n.bit_length() < 1024 else 700 if b < 700 else 500, "most liars, %d bits" % n.bit_length())]
    worst = [(31 * 61, 31)] if not THOROUGH else [(31 * 61, 31), (15 * 29 * 0 + 7 * 13, 7), (49141, 157), (104653, 229), (8911, 7)]
    parts = [("base", prime_tests(r, 64, small, 3, "every small number"), (), "every small number"),
             ("base", prime_tests(r, 64, primes + merse, 6, "primes"), (), "small primes"),
             ("base", prime_tests(r, 64, bigp, 3, "primes"), (), "large primes"),
             ("base", prime_tests(r, 64, hugep, 2, "large primes"), (), "primes of up to 2048 bits"),
             ("base", prime_tests(r, 64, hugec, 3, "large composites"), (), "composites of up to 2048 bits"),
             ("base", prime_tests(r, 64, beyond, 1, "very large primes") + [s for x in beyondc for s in prime_tests(r, 64, [x], 3, "very large composites")], (), "primes of up to 4096 bits, composites of up to 8200 bits"),
             ("base", freq, (), "acceptance frequency of composites with the most liars, by size"),
             ("w32", prime_tests(r, 32, hugep[::2] + hugec[::2], 2, "32-bit words"), (), "numbers of up to 2048 bits, 32-bit words"),
             ("base", prime_tests(r, 64, carm, 12, "pseudoprimes"), (), "Carmichael numbers and strong pseudoprimes"),
             ("base", prime_tests(r, 64, comps, 4, "composites"), (), "composites without small factors"),
             ("base", prime_tests(r, 64, even + neg, 4, "even and negative"), (), "even and negative numbers"),
             ("base", prime_tests(r, 64, proths, 4, "many factors two"), (), "numbers one above a multiple of a large power of two"),
             ("w32", prime_tests(r, 32, proths32, 4, "many factors two"), (), "numbers one above a multiple of a large power of two, 32-bit words"),
             ("base", [s for w in worst for s in prime_tests(r, 64, [w] , pick(20000, 100000), "worst case")], (), "acceptance frequency of worst-case composites"),
             ("w32", prime_tests(r, 32, small[::3] + comps[::3] + bigp[::3] + carm[::2] + neg, 3, "32-bit words"), (), "32-bit words"),
             ("mintab", prime_tests(r, 64, small[::3] + comps[::3] + bigp[::3] + carm[::2] + neg, 3, "small table"), (), "smallest prime table"),
             ("no128", prime_tests(r, 64, comps[::3] + bigp[::3] + carm[::2], 3, "portable"), (), "portable 128-bit arithmetic")]
    c.conform_all(T, parts)
    c.assumptions.append("acceptance of composites is probabilistic: frequencies above the bound of five rounds by more than six standard deviations are violations")

def pollard(n):
    from math import gcd
    if n % 2 == 0: return 2
    x = 2
    for k in range(1, 200):
        y = x; d = 1; f = lambda v: (v * v + k) % n
        while d == 1: x = f(x); y = f(f(y)); d = gcd(abs(x - y), n)
        if d != n: return d
    return 0

def c08(c):
    r = c.rng
    bits = list(range(2, 41)) + [48, 63, 64, 65, 80, 96]
    more = [127, 128, 129, 160, 192, 193, 256]
    parts = [("base", pg_sessions(r, 64, bits, pick(10, 40)), (), "every small bit length"),
             ("base", pg_sessions(r, 64, more, pick(5, 12)), (), "larger bit lengths"),
             ("w32", pg_sessions(r, 32, [2, 3, 5, 8, 16, 31, 32, 33, 63, 64, 65, 100], pick(6, 20)), (), "32-bit words"),
             ("mintab", pg_sessions(r, 64, [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 64, 65], pick(6, 20)), (), "smallest prime table"),
             ("base", pg_stops(r, 64, [2, 3, 4, 8, 16, 40, 64, 65, 100, 128, 192], pick(8, 30)), (), "stopped by the callback"),
             ("base", pg_sessions(r, 64, [300, 384, 400, 511, 512, 513, 640], 1) + pg_large(r, 64, pick([768, 1000, 1023, 1024, 1025], [768, 1000, 1023, 1024, 1025, 1536, 2048])), (), "RSA-sized primes"),
             ("w32", pg_large(r, 32, pick([384, 512], [384, 512, 768, 1024])), (), "RSA-sized primes, 32-bit words"),
             ("mintab", pg_long(r, 64), (), "searches over hundreds of candidates"),
             ("nd", [Session(["bw 0 2", "gc 0 0 01", "pg 0 %d 0 -1" % b, "pg 0 20 0 0"], "refused") for b in (1, 0, 129, 200, 1000)], (), "bit lengths that do not fit")]
    c.conform_all(T, parts)

# ------------------------------------------------------------------ RSA
def mixed_keys(r, n, pb):
    out = []
    for _ in range(n):
        b = r.choice(pb); q = r.choice([b, b, b + r.choice([-3, 1, 8]) if b > 20 else b])
        out.append(rsa_key(r, b, q, r.choice([3, 5, 17, 257, 65537, 65537])))
    return out

def c09(c):
    r = c.rng
    keys = mixed_keys(r, pick(40, 200), [12, 16, 24, 32, 33, 48, 64, 65, 96, 128]) + [rsa_key(r, 31, 33, 3), rsa_key(r, 32, 32), rsa_key(r, 64, 64), rsa_key(r, 256, 256)]
    tiny = [rsa_key(r, 6, 7, e) for e in (5, 7, 11, 13)]
    allm = []
    for k in tiny[:pick(1, 4)]:
        N = k[0]
        for lo in range(0, N + 3, 60):
            allm.append(Session(slots(64, 16) + [imp(0, k)] + [x for m in range(lo, min(lo + 60, N + 3)) for x in (put(0, m), "kn 0 enc 0 1", "kn 0 dec 1 2", "kn 0 sign 0 3", "kv 0 3 0", "kv 0 0 3")], "every message of a small key"))
    parts = [("base", rsa_ops(r, 64, keys), (), "64-bit words"), ("base", allm, (), "every message of a small key"),
             ("w32", rsa_ops(r, 32, keys[:pick(24, 100)]), (), "32-bit words"),
             ("no128", rsa_ops(r, 64, keys[:pick(20, 100)]), (), "portable 128-bit arithmetic"),
             ("nd", rsa_op_errors(r, 64, keys[:pick(24, 100)]), (), "failing calls")]
    pr = sum([sized_primes(r, b, 1) for b in pick((256, 384, 512, 512, 520, 1024, 1024), (256, 384, 512, 512, 520, 768, 1024, 1024, 1536, 2048, 2048))], [])
    big = [k for k in (key_of(pr[i], pr[i + 1], r.choice([3, 17, 65537, 65537])) or key_of(pr[i], pr[i + 1], 65537) for i in range(len(pr) - 1)) if k]
    parts += [("base", rsa_ops(r, 64, big), (), "keys of up to %d bits" % max(k[0].bit_length() for k in big)), ("w32", rsa_ops(r, 32, big[:3]), (), "large keys, 32-bit words")]
    oom = []
    for k in keys[:3]:
        N, e, d = k[:3]; m = r.randrange(2, N)
        for j in range(1, 5):
            oom.append(Session(slots(64, N.bit_length()) + [imp(0, k), put(0, m), put(1, pow(m, d, N)), put(2, 0), "F %d kv 0 1 0" % j, "F %d kv 0 2 0" % j, "F %d kv 0 2 2" % j, "F %d kv 0 0 0" % j, "F %d kv 0 0 2" % j, "kv 0 1 0"], "verification without memory"))
    parts.append(("nd", oom, ("-m",), "verification without memory"))
    c.conform_all(T, parts)

def c10(c):
    r = c.rng
    sizes = [32, 48, 64, 80, 96, 128, 160, 192] * pick(10, 40) + [256] * pick(8, 30) + [512] * pick(2, 8)
    keys = mixed_keys(r, pick(10, 60), [16, 24, 32, 48, 64])
    parts = [("base", rsa_gen(sizes), (), "generated keys"),
             ("w32", rsa_gen([x for x in sizes if x <= 192][:pick(40, 160)]), (), "generated keys, 32-bit words"),
             ("base", rsa_gen(pick([768, 1024, 1024, 1536, 2048], [768, 1024, 1024, 1536, 2048, 2048, 3072, 4096])), (), "generated keys of usual sizes"),
             ("w32", rsa_gen(pick([512, 1024], [512, 1024, 1024, 2048])), (), "generated keys of usual sizes, 32-bit words"),
             ("no128", rsa_gen([64, 128, 192] * pick(8, 30)), (), "generated keys, portable 128-bit arithmetic"),
             ("nd", rsa_altered(r, keys), (), "altered keys"),
             ("w32nd", rsa_altered(r, keys[:1]), (), "altered keys, 32-bit words")]
    c.conform_all(T, parts)
    # the library configured to verify keys when they are imported: exactly the keys that verification accepts
    parts = [("verify", [Session(s.cmds if s.tag[:3] == "una" else s.cmds[:1], s.tag) for s in rsa_altered(r, keys[:pick(4, 30)])], (), "altered keys, verification on import"),
             ("verify", import_good(r, keys, pick(6, 40)) + import_good(r, mixed_keys(r, 3, [256, 512]), 2), (), "valid keys, verification on import"),
             ("verify", rsa_gen([64, 96, 128] * pick(4, 20)), (), "generated keys, verification on import")]
    c.conform_all(T, parts, env={"VERIFY_KEY": "1"})

def length_keys(r, n):
    """eight components whose encodings have lengths around every change of the DER length form"""
    out = []
    E = [1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128]
    L = [8 * 126, 8 * 126 - 1, 8 * 127 - 1, 8 * 127, 8 * 127 + 1, 8 * 128 - 1, 8 * 128, 8 * 254, 8 * 255 - 1, 8 * 255, 8 * 255 + 1, 8 * 256 - 1, 8 * 256, 8 * 257]
    for i in range(n):
        c = r.random()
        if c < 0.35: bits = [r.choice(E) for _ in range(8)]
        elif c < 0.6: bits = [r.choice(L)] + [r.choice(E) for _ in range(7)]
        elif c < 0.75: bits = [r.choice(E)] * 2 + [r.choice(E + L) for _ in range(6)]
        else:                    # total lengths near 127, 128, 255, 256
            t = 8 * r.choice([105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 230, 235, 240]); bits = [r.randint(8, 60) for _ in range(8)]
            k = r.randrange(8); bits[k] = max(1, t - sum(bits) + bits[k])
        if r.random() < 0.2: bits[r.randrange(2, 8)] = 0
        k = fake_key(r, bits)
        if r.random() < 0.15: k[r.randrange(1, 8)] *= -1
        if k[0] == 1: k[0] = 3
        out.append(k)
    return out

def total_keys(r, span):
    """public keys whose SubjectPublicKeyInfo / RSAPublicKey length passes every value in a span"""
    return [fake_key(r, [8 * n + r.choice([0, 7]), r.choice([1, 17]), 9, 5, 5, 5, 5, 5]) for n in span]

def c11(c):
    r = c.rng
    keys = length_keys(r, pick(300, 3000))
    tot = total_keys(r, range(80, 135)) + total_keys(r, list(range(195, 262)) )
    parts = [("base", export_sessions(r, keys), (), "component lengths around every length form"),
             ("asan", export_sessions(r, tot), (), "total lengths around every length form, address sanitizer"),
             ("asan", export_short(r, [mixed_keys(r, 1, [32])[0], length_keys(r, 1)[0]] + (mixed_keys(r, 4, [48, 64, 128]) if THOROUGH else [])), (), "every buffer length, address sanitizer"),
             ("asan32", export_sessions(r, keys[:pick(80, 600)]), (), "32-bit words, address sanitizer"),
             ("asan", export_huge(r, [(2, 65536), (1, 65535), (4, 65537), (-1, 65536), (-1, 65540), (-1, 65570), (-2, 65535), (-2, 65536), (-2, 65541), (7, r.randint(65500, 70000))] * pick(1, 3)), (), "lengths around 2^16, address sanitizer"),
             ("asan32", export_huge(r, [(2, 65536), (-1, 65550), (-2, 65536)]), (), "lengths around 2^16, 32-bit words"),
             ("nd", rsa_gen([64, 96, 128, 256, 1024]), (), "generated keys")]
    c.conform_all(T, parts)

def c12(c):
    r = c.rng
    keys = mixed_keys(r, 3, [12, 24, 64]) + [length_keys(r, 1)[0]]
    small = keys[:1]
    q = lambda l: l if THOROUGH else r.sample(l, min(len(l), 3000))
    # components of every length in octets, with and without a sign octet
    every = [fake_key(r, [max(2, 8 * n - f)] + [max(1, 8 * ((n + r.randrange(9)) % 41 + 1) - f) for _ in range(7)]) for n in range(1, pick(42, 140)) for f in (0, 1, 7)]
    parts = [("asan", import_good(r, keys, pick(300, 3000)), (), "well-formed keys in all length forms"),
             ("asan", import_good(r, every, pick(2, 8)), (), "components of every length"), ("asan32", import_good(r, every, pick(1, 4)), (), "components of every length, 32-bit words"),
             ("asan", q(import_trunc(r, small if not THOROUGH else keys[:3])), (), "every truncation"),
             ("asan", q(import_lengths(r, small if not THOROUGH else keys[:2])), (), "every octet as a wrong length"),
             ("asan", q(import_shapes(r, small)), (), "wrong structures"),
             ("asan", import_bad(r, keys[:3], pick(9000, 60000)), (), "mutated encodings"),
             ("asan", import_huge(r, pick(12, 60)), (), "long structures with wrong lengths"),
             ("asan", import_good(r, [fake_key(r, [2048, 17, 2047, 1024, 1024, 1023, 1024, 1022]), fake_key(r, [4096, 17, 4096] + [2048] * 5)], pick(8, 60)), (), "keys of usual sizes"),
             ("asan32", import_bad(r, keys[:2], pick(2000, 10000)) + import_good(r, keys, pick(60, 400)), (), "32-bit words")]
    c.conform_all(T, parts, timeout=200)

# ------------------------------------------------------------------ ciphers
ALLC = ["aes", "des", "seed", "aria", "blowfish"]
FEED = ("ce", "cd")
CLOSE = ("cef", "cdf")
def stream_edges(c, bs):
    if not hasattr(c, "_edges"): c._edges = {}
    if bs not in c._edges: c._edges[bs] = walks.edges_of(c.model("StreamWalk", "StreamWalk%d.cfg" % bs, "control states of a streaming context"), 3)
    return c._edges[bs]
START = ("0", "any", "FALSE")

def des_env(c):
    """The S-box of DES in the tree: standard, or with the listed deviation (decided by the specification on a probe)."""
    if not hasattr(c, "_des"):
        s = [Session(["cc 0 des ecb 0001020304050607"] + ["ce 0 %s" % hx(c.rng.randbytes(64)) for _ in range(16)], "probe")]
        c._des = {"DES_DEV": "1"} if c.conform_all(T, [("base", s, (), "DES probe")], collect=True) else {}
    return c._des

def walk_parts(c, want, frac, variants=("base",), ciphers=ALLC, modes=MODES, maxlen=40):
    """frac: (feed, close, other) fraction of the edges to be covered in this run, per cipher and mode"""
    ed = {bs: stream_edges(c, bs) for bs in (8, 16)}
    parts = []
    for v in variants:
        ss = []
        for ci in ciphers:
            for m in modes:
                es = [e for e in ed[CIPHERS[ci][0]] if want(e)]
                k = len(es) if frac >= 1 else max(1, int(len(es) * frac))
                es = es if k >= len(es) else c.rng.sample(es, k)
                for w in walks.cover(ed[CIPHERS[ci][0]], START, c.rng, maxlen, es): ss.append(cipher_walk(c.rng, ci, m, w))
        parts.append((v, ss, (), "walks over the streaming states"))
    return parts

def c13(c):
    r = c.rng
    parts = walk_parts(c, lambda e: e[1] in FEED, 1)
    parts.append(("port", [s for v, ss, o, w in walk_parts(c, lambda e: e[1] in FEED, pick(0.5, 1), ciphers=["aes"]) for s in ss], (), "without AES instructions"))
    parts.append(("base", [two_contexts(r, ci, m, r.choice([0, 1, 7, 8, 15, 16, 17, 31, 33, 48, 64, 65, 127, r.randrange(200)])) for ci in ALLC for m in MODES for _ in range(pick(6, 40))], (), "whole and split"))
    parts.append(("asan", [two_contexts(r, ci, m, r.randrange(100)) for ci in ALLC for m in MODES for _ in range(pick(2, 10))], (), "address sanitizer"))
    big = [4096, 4097, 8191, 8192, 5000 + r.randrange(4000)]
    parts.append(("base", [two_contexts(r, ci, m, n) for ci in ALLC for m in MODES for n in r.sample(big, pick(1, 5))] + [two_contexts(r, ci, r.choice(MODES), 65536 + r.randrange(-20, 300)) for ci in ALLC for _ in range(pick(1, 4))], (), "long messages"))
    parts.append(("port", [two_contexts(r, "aes", m, r.choice(big)) for m in MODES], (), "long messages, without AES instructions"))
    c.conform_all(T, parts, env=des_env(c))
    # a run of their own: the values are large
    for m in pick([r.choice(MODES)], MODES):
        c.conform_all(T, [("base", [big_message(r, ci, m, (1 << (20 if ci == "aes" else 18 if ci == "des" else 19)) + r.randrange(1, 9999)) for ci in ALLC], (), "a mebibyte in one call")], env=des_env(c))

def outs(line):
    return [e.get("out", []) for e in json.loads(line)["ev"]]

def c14(c):
    r = c.rng
    parts = walk_parts(c, lambda e: e[1] in CLOSE, 1, maxlen=40)
    # ciphertexts of plaintexts whose endings are valid or almost valid paddings
    prep, meta = [], []
    for ci in ALLC:
        for m in MODES:
            for _ in range(pick(1, 6)):
                key, iv = ckey(r, ci), r.randbytes(CIPHERS[ci][0])
                cases = pad_cases(r, CIPHERS[ci][0])
                for msg in (cases):
                    prep.append(encrypt_for(r, ci, m, key, iv, msg)); meta.append((ci, m, key, iv, msg))
    number(prep)
    ls, cr = record(build("base"), prep)
    dec = []
    if cr or len(ls) != len(prep):
        parts.append(("base", prep, (), "preparation"))
    else:
        for (ci, m, key, iv, msg), l in zip(meta, ls):
            ct = bytes(outs(l)[-1]); bs = CIPHERS[ci][0]
            cmds = ["cc 0 %s %s %s" % (ci, m, key.hex())]
            for pad in ("pkcs7", r.choice(["none", "zero"])):
                cut = r.choice([0, 0, len(ct), r.randrange(len(ct) + 1)]) if ct else 0
                cmds.append("cs 0 " + iv.hex())
                if cut: cmds.append("cd 0 " + hx(ct[:cut]))
                cmds += ["cdf 0 %s %s" % (hx(ct[cut:]), pad), "cg 0"]
            # round trip of the message itself
            dec.append(Session(cmds + ["cx 0"], "%s %s ending %s" % (ci, m, msg[-3:].hex())))
        parts.append(("base", dec, (), "valid and nearly valid paddings"))
        parts.append(("asan", dec[::pick(6, 2)], (), "address sanitizer"))
    rt = []
    for ci in ALLC:
        bs = CIPHERS[ci][0]
        for m in MODES:
            for n in range(0, 2 * bs + 2):
                d = r.randbytes(n); k = r.randrange(n + 1)
                rt.append(Session(["cc 0 %s %s %s" % (ci, m, ckey(r, ci).hex()), "ce 0 " + hx(d[:k]), "cef 0 %s %s" % (hx(d[k:]), r.choice(["pkcs7", "pkcs7", "zero", "none"])), "cg 0", "ce 0 " + hx(d), "cx 0"], "%s %s, %d bytes" % (ci, m, n)))
    parts.append(("base", rt, (), "every message length"))
    parts.append(("port", [s for s in rt if s.tag.startswith("aes")], (), "without AES instructions"))
    c.conform_all(T, parts, env=des_env(c))

def c15(c):
    parts = walk_parts(c, lambda e: e[1] in ("cs", "cg", "ci"), 1)
    r = c.rng
    re = []
    for ci in ALLC:
        bs = CIPHERS[ci][0]
        for m in MODES:
            for _ in range(pick(8, 60)):
                key = ckey(r, ci)
                cmds = ["cc 0 %s %s %s" % (ci, m, key.hex()), "cg 0"]
                for _ in range(4):
                    iv, msg, k = r.randbytes(bs), r.randbytes(r.randrange(4 * bs)), r.randrange(bs)
                    d = r.choice("ed")
                    # interrupted stream, then SetIV: nothing of it may be left; then the same message in a fresh context
                    cmds += ["c%s 0 %s" % (d, hx(r.randbytes(k))), "cs 0 " + iv.hex(), "cg 0", "c%s 0 %s" % (d, hx(msg)), "cg 0", "c%s 0 -" % d, "cg 0"]
                    cmds += ["c%sf 0 %s %s" % (d, hx(r.randbytes(r.randrange(2 * bs))), r.choice(pads_)), "cg 0"]
                    cmds += ["cc 1 %s %s %s" % (ci, m, key.hex()), "cs 1 " + iv.hex(), "c%s 1 %s" % (d, hx(msg)), "cg 1", "cx 1"]
                    if r.random() < 0.5:
                        key, m2 = ckey(r, ci), r.choice(MODES)
                        cmds += ["ci 0 %s %s" % (m2, key.hex()), "cg 0"]; m = m2
                re.append(Session(cmds + ["cx 0"], "%s restarts" % ci))
    parts.append(("base", re, (), "restarted streams"))
    parts.append(("port", [s for s in re if s.tag.startswith("aes")], (), "without AES instructions"))
    c.conform_all(T, parts, env=des_env(c))
pads_ = ["none", "zero", "pkcs7"]

def block_sessions(r, ci, keys, blocks, mode="ecb"):
    bs = CIPHERS[ci][0]
    out = []
    for k in keys:
        e = b"".join(r.choice([r.randbytes(bs), r.randbytes(bs), bytes(bs), b"\xff" * bs, bytes([0] * r.randrange(bs)).ljust(bs, bytes([1 << r.randrange(8)]))]) for _ in range(blocks))
        d = r.randbytes(bs * blocks)
        out.append(Session(["cc 0 %s %s %s" % (ci, mode, k.hex()), "ce 0 " + hx(e), "cd 0 " + hx(d), "cx 0"], "%s key of %d bytes" % (ci, len(k))))
    return out

def keyset(r, n, total):
    s = [bytes(n), b"\xff" * n] + [(1 << i).to_bytes(n, "big") for i in range(8 * n)] + [r.randbytes(n) for _ in range(total)]
    return s

def c16(c):
    r = c.rng
    def keys(n, q):
        ks = keyset(r, n, pick(q, 40 * q))
        return ks
    aes = sum([block_sessions(r, "aes", keys(n, 60), 12) for n in (16, 24, 32)], [])
    seed = block_sessions(r, "seed", keys(16, 100), 12)
    aria = sum([block_sessions(r, "aria", keys(n, 60), 12) for n in (16, 24, 32)], [])
    bf = sum([block_sessions(r, "blowfish", [r.randbytes(n) for _ in range(pick(4, 60))], 16) for n in range(1, 57)], [])
    def cvt(ss, want): return [s for s in ss if want in s.tag]
    parts = [("base", aes, (), "AES with instructions"), ("port", aes, (), "AES with tables"), ("mintab", aes, (), "AES with the small tables"),
             ("base", seed, (), "SEED"), ("base", aria, (), "ARIA"), ("base", bf, (), "Blowfish")]
    c.conform_all(T, parts)
    # DES
    des = sum([block_sessions(r, "des", keys(n, q), b) for n, q, b in ((8, 100, 16), (16, 60, 16), (24, 60, 16))], [])
    env = des_env(c)
    if env:
        text = "DES blocks differ from FIPS 46-3 (S1, row 3, column 15)"
        if not c.known_finding("des-sbox1-row3-col15", text):
            c.conform_all(T, [("base", des, (), "DES")])            # not listed: the plain standard decides
    c.conform_all(T, [("base", des, (), "DES" if not env else "DES with the listed deviation of S1")], env=env)

def c17(c):
    r = c.rng
    parts = [("base", rc4_sessions(r, pick(800, 8000)), (), "key lengths 1..40 and up to 600, all piece sizes"),
             ("base", rc4_pairs(r, pick(150, 1500)), (), "whole and split"),
             ("base", rc4_long(r, pick(12, 100)), (), "long messages"),
             ("asan", rc4_sessions(r, pick(200, 2000)), (), "address sanitizer")]
    c.conform_all(T, parts)

# ------------------------------------------------------------------ digests
def c18(c):
    r = c.rng
    ed = {bl: walks.edges_of(c.model("DigestWalk", "DigestWalk%d.cfg" % bl, "control states of a digest context"), 3) for bl in (16, 64, 128)}
    st = ("0", "FALSE", "FALSE")
    def wk(algs, frac):
        ss = []
        for a in algs:
            es = ed[DIGS[a]]
            want = es if frac >= 1 else r.sample(es, int(len(es) * frac))
            for w in walks.cover(es, st, r, 30, want): ss.append(digest_walk(r, a, w))
        return ss
    parts = [("base", wk(["md4", "md5", "sha1", "sha224", "sha256", "has160"], 1), (), "walks over the streaming states"),
             ("base", wk(["sha384", "sha512", "sha512_224", "sha512_256"], 1), (), "walks over the streaming states"),
             ("base", wk(["md2"], 1), (), "walks over the streaming states"),
             ("port", wk(["sha1", "sha256"], 1), (), "without SHA instructions"),
             ("noroll", wk(list(DIGS), pick(0.2, 1)), (), "compression without unrolling"),
             ("base", [digest_split(r, a, r.choice([0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 200, r.randrange(400)])) for a in DIGS for _ in range(pick(15, 200))], (), "whole and split"),
             ("asan", [digest_split(r, a, r.randrange(300)) for a in DIGS for _ in range(pick(5, 50))], (), "address sanitizer"),
             ("base", [digest_split(r, a, n) for a in DIGS for n in (r.choice([4095, 4096, 8191, 8192, 9000]), 65536 + r.randrange(-70, 300)) * pick(1, 4)], (), "long messages whole and split"),
             ("base", [digest_switch(r) for _ in range(pick(120, 2000))], (), "re-initialised for other SHA-2 variants")]
    # the length counters of a context that held a message of more than 2^32 bytes are restarted too
    longs = []
    for i, a in enumerate(["has160", "md5", "sha512", "sha384", "sha512_224", "sha512_256", "md4", "sha1", "sha224", "sha256"]):
        n = (1 << 32) + r.randrange(1, 200); m = r.randbytes(r.choice([0, 3, 55, 64, 119, r.randrange(300)]))
        for fin in pick([i % 2 == r.randrange(2)], [False, True]):
            longs.append(Session(["dc 0 " + a, "dz 0 0 %d %d" % (n, (1 << 30) + r.randrange(1, 99))] + ["df 0 0"] * fin + ["di 0 %s %d" % (a, dfl(r, a)), "du 0 0 " + hx(m), "df 0 0", "dx 0"], "%s, restarted after a message of more than 4 GiB" % a))
    parts.append(("base", longs, (), "restarted after a very long message"))
    c.conform_all(T, parts, timeout=500, one_timeout=200)

LONG = ["md4", "md5", "sha1", "sha256", "sha512", "has160", "sha224", "sha384"]
def long_sessions(r, algs, totals):
    out = []
    for a in algs:
        bl = DIGS[a]; lb = 16 if bl == 128 else 8
        for n in totals:
            # padding of the n zero bytes, as the standard prescribes
            bits = 8 * n
            pad = b"\x80" + b"\0" * ((-n - 1 - lb) % bl) + bits.to_bytes(lb, "little" if a in ("md4", "md5", "has160") else "big")
            x = r.randbytes(r.randrange(0, 2 * bl))
            p1, p2 = (1 << 30) + r.randrange(1, 99), (1 << 20) + r.randrange(1, 99)
            k = r.randrange(len(pad) + 1)
            m = pad + x
            out.append(Session(["dc 0 " + a, "dc 1 " + a, "dz 0 0 %d %d" % (n, p1), "df 0 0", "dz 1 0 %d %d" % (n, p2), "du 1 0 " + hx(m), "df 1 0", "dx 0", "dx 1"], "%s, %d zero bytes" % (a, n)))
    return out

def c19(c):
    r = c.rng
    def lens(bl, q):
        full = list(range(0, 3 * bl + 2))
        if THOROUGH: return full
        hot = {0, 1, bl - 1, bl, bl + 1, 2 * bl - 1, 2 * bl, 2 * bl + 1} | set(range(bl - bl // 8 - 3, bl + 2)) | set(range(2 * bl - bl // 8 - 3, 2 * bl + 2))
        return sorted(hot | set(r.sample(full, min(q, len(full)))))
    parts = [("base", sum([digest_lengths(r, a, lens(DIGS[a], 400)) for a in DIGS], []), (), "message lengths of up to three blocks"),
             ("port", sum([digest_lengths(r, a, lens(DIGS[a], 200)) for a in ("sha1", "sha256", "sha224")], []), (), "without SHA instructions"),
             ("noroll", sum([digest_lengths(r, a, r.sample(range(3 * DIGS[a]), min(3 * DIGS[a], pick(40, 300)))) for a in DIGS], []), (), "compression without unrolling")]
    algs = pick(["has160", "sha512", "md5", "md4", "sha256", "sha1"], LONG)
    longs = long_sessions(r, algs, pick([(1 << 32) - 40, (1 << 29) - 24], [(1 << 29) - 24, (1 << 29) + 5, (1 << 32) - 40, (1 << 32) + 77]))
    longs.sort(key=lambda s: -int(s.tag.split(", ")[1].split()[0]))
    longs_port = long_sessions(r, pick(["sha256", "sha1"], ["sha1", "sha256"]), pick([(1 << 29) - 24], [(1 << 32) - 40]))
    parts += [("base", longs, (), "messages whose length passes 2^32 bits or bytes"), ("port", longs_port, (), "long messages without SHA instructions")]
    c.conform_all(T, parts, timeout=400, one_timeout=200)

# ------------------------------------------------------------------ generators
def c20(c):
    r = c.rng
    parts = [("base", sum([rng_walk(r, a) for a in range(4)], []), (), "every offset in the block"),
             ("base", rng_sessions(r, pick(300, 4000)), (), "equal seeds, different requests"),
             ("port", rng_sessions(r, pick(60, 600)), (), "without SHA instructions"),
             ("asan", rng_sessions(r, pick(60, 600)), (), "address sanitizer"),
             ("base", [Session(["gc 0 %d %s" % (a, hx(r.randbytes(9))), "gb 0 %d" % (260 * bl), "gb 0 %d" % (3 * bl)], "more than 256 blocks") for a, bl in ((0, 20), (1, 32), (2, 64), (3, 16))], (), "more than 256 blocks")]
    # the block counter passes 2^16: read in large pieces
    parts.append(("base", [Session(["gc 0 %d %s" % (a, hx(r.randbytes(9)))] + ["gb 0 %d" % (bl * 2048 + r.choice([-1, 0, 0, 1, 5])) for _ in range(33)], "more than 65536 blocks, algorithm %d" % a) for a, bl in ((0, 20), (1, 32), (2, 64), (3, 16))], (), "more than 65536 blocks"))
    # ... and 2^24: read without recording, the specification passes over the same bytes
    parts.append(("base", [Session(["gc 0 %d %s" % (a, hx(r.randbytes(9))), "gk 0 %d %d" % ((bl << 24) - r.randrange(3 * bl), r.choice([4096, 99991, 1 << 22, 1 << 27])), "gb 0 %d" % (6 * bl)], "more than 2^24 blocks, algorithm %d" % a) for a, bl in pick([(3, 16)], [(3, 16), (0, 20), (1, 32), (2, 64)])], (), "more than 2^24 blocks"))
    c.conform_all(T, parts)

def c21(c):
    r = c.rng
    parts = [("base", derived_sessions(r, 64, pick(900, 6000), False), (), "64-bit words"), ("w32", derived_sessions(r, 32, pick(400, 3000), False), (), "32-bit words"),
             ("base", derived_long(r, 64, pick(60, 600)), (), "thousands of bits"), ("w32", derived_long(r, 32, pick(40, 400)), (), "thousands of bits, 32-bit words"),
             ("nd", derived_sessions(r, 64, pick(250, 1500)), (), "64-bit words, with requests that do not fit"),
             ("asan", derived_sessions(r, 64, pick(250, 1500)), (), "address sanitizer")]
    c.conform_all(T, parts)

def entropy_sessions(r, n, kinds=(0, 1, 2, 3)):
    """one clock value, sources that differ in a single bit, in an ordinary process, without standard input, without source"""
    out = []
    for i in range(n):
        a = kinds[i % len(kinds)]; b = r.randbytes(64); ms = r.choice([0, 1, 999, r.getrandbits(31), r.getrandbits(40)]); cm = []
        k = 0
        def add(src, mode=0, m=None):
            nonlocal k
            cm.append("gs %d %d %s %d %d" % (k % 8, a, src.hex(), ms if m is None else m, mode)); k += 1
            if k % 8 == 0 and a < 10: cm.extend("gx %d" % j for j in range(8))
        add(b); add(b, 1); add(bytes(64)); add(bytes(64), 1)
        add(r.randbytes(64), 4); add(b, 4); add(r.randbytes(64), 5)
        for byte in r.sample(range(16), 9) + list(range(16, 32, 3)):
            m = bytearray(b); m[byte] ^= 1 << r.randrange(8); add(bytes(m), r.choice([0, 0, 1]))
        add(b, 2); add(b, 3); add(b, 0, ms + 1)
        add(r.randbytes(64), 1); add(r.randbytes(64), 0); add(r.randbytes(64), 2); add(r.randbytes(64), 0)
        out.append(Session(cm, "automatic seeds of %s" % ("generator %d" % a if a < 10 else ("keys", "primes", "numbers", "bytes")[a - 10])))
    return out

def c26(c):
    r = c.rng
    parts = [("base", entropy_sessions(r, pick(80, 800)), (), "system entropy"),
             ("base", entropy_sessions(r, pick(80, 800), (10, 11, 12, 13)), (), "system entropy for keys, primes and numbers"),
             ("port", entropy_sessions(r, pick(24, 200)), (), "without SHA instructions"),
             ("nd", entropy_sessions(r, pick(24, 200)), (), "without assertions")]
    c.conform_all(T, parts)

# ------------------------------------------------------------------ memory
def lifecycle(r, W=64):
    """sessions that create, use and destroy every kind of object"""
    out = []
    for ci in ALLC:
        bs = CIPHERS[ci][0]
        for m in MODES:
            out.append(Session(["cc 0 %s %s %s" % (ci, m, ckey(r, ci).hex()), "cs 0 " + r.randbytes(bs).hex(), "ce 0 " + hx(r.randbytes(3 * bs + 3)), "cef 0 %s pkcs7" % hx(r.randbytes(5)), "cc 1 %s %s %s" % (ci, m, ckey(r, ci).hex()), "cd 1 " + hx(r.randbytes(2 * bs + 1)), "cx 0", "ci 1 %s %s" % (r.choice(MODES), ckey(r, ci).hex()), "ce 1 " + hx(r.randbytes(bs + 2)), "cx 1"], ci + " " + m))
    for a in DIGS:
        out.append(Session(["dc 0 " + a, "du 0 0 " + hx(r.randbytes(DIGS[a] + 9)), "dc 1 " + a, "du 1 0 " + hx(r.randbytes(7)), "dx 0", "df 1 0", "dx 1"] + (["do %s %s" % (a, hx(r.randbytes(70)))] if a in ONESHOT else []), a))
    out.append(Session(["4c 0 0102030405", "4e 0 %s 0" % hx(r.randbytes(300)), "4c 1 77", "4x 0", "4e 1 %s 0" % hx(r.randbytes(9)), "4x 1"], "rc4"))
    for a in range(4):
        out.append(Session(["gc 0 %d %s" % (a, hx(r.randbytes(12))), "gb 0 70", "gc 1 %d null" % a, "gb 1 33", "gx 0", "gr 1", "gx 1"], "generator %d" % a))
    v = lambda n: num(r, W, n)
    out.append(Session(["bn 0 200", "bw 1 5", put(0, abs(v(3)) + 1), put(1, v(4)), "bclone 2 1", "bw 3 12", "bmul 3 0 1", "bw 4 12", "bdiv 3 4 1 0", "bsqr 4 0", "bw 5 5", put(5, 12345), "bmod 5 1 0", "gc 0 0 0102", "brnd 5 100 0", "brndo 5 100 -1", "brndr 5 100 0", "bcfree 0", "bcfree 1", "bfree 2", "bcfree 3", "bfree 4", "bcfree 5", "gx 0"], "numbers"))
    out.append(Session(["bw %d 8" % k for k in range(5)] + [put(3, abs(v(4)) or 3), put(4, abs(v(4)) or 5), "gcd 0 3 4", "gcdx 0 1 2 3 4 0", "gcdx 0 1 2 3 4 1", "gcdx - 1 - 3 4 1"], "gcd"))
    N = odd_modulus(r, W, 3)
    out.append(Session(["bw %d 8" % k for k in range(4)] + [put(0, N), "mc 0 0", put(1, abs(v(2))), put(2, mag(r, W, 1)), "me 0 3 1 2", "mc 1 0", "mx 0", "me 1 3 1 2", "mx 1"], "modulus"))
    pr = nextprime(r.getrandbits(100) | 1 << 99)
    out.append(Session(["bw 0 6", put(0, pr), "pt 0 1 -", put(0, pr * 3), "pt 0 1 03", put(0, 3215031751), "pt 0 1 97", "gc 0 0 09", "pg 0 40 0 -1", "pg 0 64 0 0", "pg 0 64 0 1", "pg 0 30 -1 -1"], "primes"))
    k = rsa_key(r, 48, 48)
    out.append(Session(slots(W, 96) + [imp(0, k), imp(1, k, False), imp(2, k, True, "raw"), imp(3, k, False, "raw"), "kk 0", "kk 1", put(0, 123456789), "kn 0 enc 0 1", "kn 1 enc 0 1", "kn 0 dec 1 2", "kn 0 sign 0 3", "kv 1 3 0", "kv 0 3 1", "kex 0 priv 0", "kex 1 pub 0", "ke 0 pub 3", "ke 0 priv 9", "kx 0", "kx 1", "kx 2", "kx 3"], "rsa"))
    out.append(Session(["kc 0 64", "kk 0", "kb 0", "kex 0 priv 0", "kx 0"], "generated key"))
    out.append(Session(["nx", "nx"], "nothing"))
    return out

def failing_imports(r):
    k = rsa_key(r, 24, 24)
    f = {"pub": pkcs1_pub, "priv": pkcs1_priv, "spki": spki, "pkcs8": pkcs8}
    out = []
    for kind, fn in f.items():
        b = fn(k)
        for n in r.sample(range(len(b)), min(len(b), pick(18, len(b)))): out.append(Session([ki(0, kind, b[:n])], "truncated " + kind))
        for _ in range(pick(30, 300)): out.append(Session([ki(0, kind, mutate(r, b))], "mutated " + kind))
    out += r.sample(import_shapes(r, [k]), pick(120, 600))
    return out

def c22(c):
    r = c.rng
    base = lifecycle(r)
    if THOROUGH: base += lifecycle(r) + lifecycle(r)
    number(base)
    ls, cr = record(build("nd"), base, ("-m",))
    fails = []
    for s, l in zip(base, ls) if not cr else []:
        if s.tag == "generated key": continue
        evs = json.loads(l)["ev"]
        # commands that give several events (kex) are charged with the last one
        i = 0
        for j, cmd in enumerate(s.cmds):
            n = 2 if cmd.startswith("kex") else 1
            al = max([e.get("al", 0) for e in evs[i:i + n]] or [0]); i += n
            for k in range(1, al + 1):
                if al > 24 and not THOROUGH and k > 8 and r.random() > 16 / al: continue
                # the failed call, then the same call again with memory, then the rest of the session
                out = s.cmds[:j] + ["F %d %s" % (k, cmd), cmd] + s.cmds[j + 1:]
                fails.append(Session(out, s.tag + ", failure %d of %s" % (k, cmd.split()[0])))
    # calls with many allocations: short sessions, every allocation
    k = rsa_key(r, 24, 24); k2 = rsa_key(r, 33, 31); N = odd_modulus(r, 64, 3); pr = nextprime(r.getrandbits(70) | 1 << 69)
    v = lambda n: num(r, 64, n)
    long = [("kk 0", [imp(0, k)], ["kx 0"]), ("kk 0", [imp(0, k2)], ["kx 0"]), ("kk 0", [imp(0, k, False)], ["kx 0"])]
    long += [(imp(0, x, p, f), [], ["kx 0"]) for x in (k, k2) for p in (True, False) for f in ("spki", "raw")]
    long += [("kn 0 %s 1 2" % o, slots(64, 64) + [imp(0, k), put(1, 123456789)], ["kx 0"]) for o in ("enc", "dec", "sign")] + [("kv 0 1 2", slots(64, 64) + [imp(0, k), put(1, 12345), put(2, pow(12345, k[2], k[0]))], ["kx 0"])]
    long += [("kex 0 %s %d" % (o, i), [imp(0, k)], ["kx 0"]) for o in ("pub", "priv") for i in (0, 200)]
    long += [("pt 0 1 -", ["bw 0 6", put(0, pr)], []), ("pt 0 1 0305", ["bw 0 6", put(0, pr)], []), ("pt 0 1 97", ["bw 0 6", put(0, 3215031751)], []), ("pg 0 40 0 -1", ["bw 0 6", "gc 0 0 09"], ["gx 0"]), ("pg 0 30 -1 -1", ["bw 0 6"], [])]
    long += [("mc 0 0", ["bw %d 8" % j for j in range(4)] + [put(0, N)], ["mx 0"]), ("me 0 3 1 2", ["bw %d 8" % j for j in range(4)] + [put(0, N), "mc 0 0", put(1, abs(v(2))), put(2, mag(r, 64, 1))], ["mx 0"])]
    long += [(g, ["bw %d 8" % j for j in range(5)] + [put(3, abs(v(4)) or 3), put(4, abs(v(4)) or 5)], []) for g in ("gcdx 0 1 2 3 4 0", "gcdx 0 1 2 3 4 1", "gcdx - 1 - 3 4 1", "gcd 0 3 4")]
    long += [("bdiv 1 2 0 3", ["bw %d 12" % j for j in range(4)] + [put(0, abs(v(9))), put(3, abs(v(4)) or 5)], []), ("bmod 1 0 3", ["bw %d 12" % j for j in range(4)] + [put(0, abs(v(9))), put(3, abs(v(4)) or 5)], [])]
    probe = [Session(a + [cmd] + z, "probe") for cmd, a, z in long]
    number(probe)
    pl, _ = record(build("nd"), probe, ("-m",))
    every = []
    for (cmd, a, z), l in zip(long, pl):
        n = max([e.get("al", 0) for e in json.loads(l)["ev"]] or [0])
        for i in range(1, n + 2): every.append(Session(a + ["F %d %s" % (i, cmd), cmd] + z, "failure %d of %s" % (i, " ".join(cmd.split()[:3])[:30])))
    gen = [Session(["F %d kc 0 48" % k, "kc 0 48", "kx 0"], "generated key, failure %d" % k) for k in list(range(1, 120)) + r.sample(range(120, 900), pick(60, 300))]
    parts = [("nd", base, ("-m",), "every object without failures"), ("nd", fails, ("-m",), "every allocation failing once"), ("nd", gen, ("-m",), "allocations failing during key generation"),
             ("nd", every, ("-m",), "every allocation of the calls with many"),
             ("nd", failing_imports(r), ("-m",), "failing imports"),
             ("nd", rsa_op_errors(r, 64, mixed_keys(r, 2, [32, 64])) + gcd_errors() + expmod_errors(r, 64, 6), ("-m",), "failing calls"),
             ("asan", fails[::pick(2, 1)], ("-m",), "every allocation failing once, address sanitizer")]
    c.level = "fault_enumeration"
    c.extra["failures_injected"] = len(fails) + len(gen) + len(every)
    c.conform_all(T, parts, env=des_env(c))
    vk = [Session(["F %d %s" % (j, imp(0, x, p)), imp(0, x, p), "kx 0"], "failure %d of an import that verifies" % j) for x, p in ((k, True), (k, False)) for j in range(1, 1500 if p else 220, pick(2, 1))]
    c.conform_all(T, [("verify", vk, ("-m",), "allocations failing in imports that verify the key")], env={"VERIFY_KEY": "1"})

def c23(c):
    r = c.rng
    ks = [rsa_key(r, 64, 64), rsa_key(r, 70, 58), rsa_key(r, 256, 256)]
    broken = [Session(["F %d %s" % (j, imp(0, k, True, how)), imp(0, k, True, how), "kx 0"], "import without memory") for k in ks for how in ("raw", "pkcs8") for j in list(range(1, 40)) + r.sample(range(40, 260), pick(10, 60))]
    parts = [("base", sum([lifecycle(r) for _ in range(pick(10, 60))], []), ("-m",), "erased on destruction"), ("base", broken, ("-m",), "erased when an import fails"),
             ("port", lifecycle(r), ("-m",), "without hardware instructions"), ("w32", lifecycle(r, 32), ("-m",), "32-bit words"), ("nd", lifecycle(r), ("-m",), "without assertions")]
    c.conform_all(T, parts, env=des_env(c))

# ------------------------------------------------------------------ interleaving, configurations
def mixture(r, n, W=64):
    """sessions of all parts of the library"""
    out = []
    for i in range(n):
        o = i % 8
        if o == 0: out.append(two_contexts(r, r.choice(ALLC), r.choice(MODES), r.randrange(90)))
        elif o == 1: out.append(digest_split(r, r.choice(list(DIGS)), r.randrange(300)))
        elif o == 2: out += rc4_pairs(r, 1)
        elif o == 3: out += rng_sessions(r, 4, 200)[r.randrange(4):][:1]
        elif o == 4: out += r.choice([arith, division, codec, gcds])(r, W, 1)
        elif o == 5: out += expmods(r, W, 1)
        elif o == 6: out += pg_sessions(r, W, [r.choice([20, 40, 64])], 1) if r.random() < 0.5 else derived_sessions(r, W, 1, False)[-1:]
        else: out += rsa_ops(r, W, [rsa_key(r, 24, 24)])[:1] if r.random() < 0.5 else [loosened(r)]
    return out
def loosened(r):
    k = rsa_key(r, 24, 24)
    c = []
    for _ in range(6): c += [ki(0, "pkcs8", loose(r, k, "pkcs8")), "ke 0 priv 4000", "ke 0 pub 4000", "kk 0", "kx 0"]
    return Session(c, "import and export")

def same_kind(r):
    """groups of eight sessions that use the same part of the library at the same time"""
    out = []
    for ci in ALLC:
        for mode in MODES: out += [two_contexts(r, ci, mode, 60 + r.randrange(60)) for _ in range(8)]
    for a in DIGS: out += [digest_split(r, a, 100 + r.randrange(200)) for _ in range(8)]
    out += rc4_pairs(r, 8) + rng_sessions(r, 8, 200) + arith(r, 64, 8) + division(r, 64, 8) + codec(r, 64, 8) + gcds(r, 64, 8) + expmods(r, 64, 8)
    out += derived_sessions(r, 64, 8, False)[:8]
    ls = [lifecycle(r) for _ in range(8)]          # every other operation
    for i in range(20 + len(DIGS), len(ls[0])): out += [x[i] for x in ls]
    out += [loosened(r) for _ in range(8)] + rsa_ops(r, 64, [rsa_key(r, 24, 24) for _ in range(8)])
    out += sum([pg_sessions(r, 64, [32], 1) for _ in range(8)], [])
    out += [Session(["bw 0 4"] + [x for p in r.sample(sieve(3000)[20:], 12) for x in (put(0, p), "pt 0 3 -", put(0, p * 3), "pt 0 2 03")], "primality") for _ in range(8)]
    return out

def c24(c):
    r = c.rng
    env = des_env(c)
    parts = [("base", mixture(r, pick(96, 600)), ("-i", str(r.getrandbits(30))), "interleaved call by call"),
             ("base", mixture(r, pick(96, 600)), ("-i", str(r.getrandbits(30))), "interleaved call by call, again"),
             ("base", same_kind(r), ("-t", "8", "-r", str(pick(60, 600))), "eight threads, same part of the library"),
             ("port", same_kind(r), ("-t", "8", "-r", str(pick(40, 400))), "eight threads, without hardware instructions"),
             ("base", mixture(r, pick(96, 600)), ("-t", "8", "-r", str(pick(60, 600))), "eight threads, mixed")]
    c.conform_all(T, parts, env=env, shards=4, timeout=120)
    c.conform_all(T, [("base", large_kind(r), ("-t", "8", "-r", str(pick(6, 60))), "eight threads, large operands")], env=env, shards=4, timeout=120)
    if not c.hung: tsan(c, same_kind(r) + large_kind(r))

def large_kind(r):
    """the same with large operands: a size may select another algorithm or a working area of its own"""
    out = []
    out += arith(r, 64, 8, 80, big=True) + division(r, 64, 8, 40) + codec(r, 64, 8, 1100) + gcds(r, 64, 8, 20) + expmods(r, 64, 8, 18)
    out += derived_long(r, 64, 8)
    ks = [k for k in (key_of(*sized_primes(r, 256, 2)) for _ in range(6)) if k] + [k for k in (key_of(*sized_primes(r, 512, 2)) for _ in range(4)) if k]
    out += (rsa_ops(r, 64, ks * 2))[:16] + import_good(r, ks, 1)[:8]
    out += [x for i in range(8) for x in export_sessions(r, [ks[i % len(ks)]])[:1]]
    out += [big_message(r, ci, r.choice(MODES), 5000 + r.randrange(4000)) for ci in ALLC for _ in range(8)]
    out += [digest_split(r, a, 4000 + r.randrange(5000)) for a in DIGS for _ in range(8)]
    out += [x for _ in range(8) for x in rc4_long(r, 1)[:1]]
    out += sum([pg_large(r, 64, [b]) for b in (256, 300, 320, 384, 384, 400, 448, 512)], [])
    return out

def tsan(c, sessions):
    """the same concurrent sessions under the race detector: a report is a violation of independence"""
    number(sessions)
    exe = build("tsan")
    def one(part):
        return _tsan_run(exe, part)
    parts = [sessions[i:i + 8] for i in range(0, len(sessions), 8)]
    with cf.ThreadPoolExecutor(4) as ex: res = list(ex.map(one, parts))
    bad = [(p, t) for p, t in zip(parts, res) if t]
    c.log("race detector", len(parts), "groups,", len(bad), "with reports")
    c.extra["race_detector_groups"] = len(parts)
    for p, t in bad[:3]:
        c.violation("objects share state without synchronisation (sessions of [%s] in eight threads): %s" % (p[0].tag, t[:300]), p[0], "tsan", ("-t", "8"), "", None, t)
def _tsan_run(exe, part):
    from .core import _run_driver, _crash_summary
    env = dict(os.environ); env.update(SANENV)
    rc, lines, txt = _run_driver(exe, part, ("-t", "8"), 60, env)
    if "WARNING: ThreadSanitizer" not in txt: return ""
    m = re.search(r"WARNING: ThreadSanitizer.*?(?======|\Z)", txt, re.S)
    locs = re.findall(r"#0 (\S+) (\S+)", m.group(0))
    return "data race " + "; ".join("%s at %s" % l for l in locs[:2])

def c25(c):
    r = c.rng
    n = pick(40, 300)
    def scripts(W): return (arith(r, W, n) + division(r, W, n) + codec(r, W, n) + gcds(r, W, n) + expmods(r, W, n))
    both = scripts(32)           # operands built from 32-bit words, legal in either configuration
    wide = scripts(64)
    stream = [two_contexts(r, ci, m, r.randrange(90)) for ci in ALLC for m in MODES for _ in range(pick(1, 6))] + [digest_split(r, a, r.randrange(400)) for a in DIGS for _ in range(pick(2, 10))]
    misc = rng_sessions(r, pick(12, 80)) + rc4_sessions(r, 8) + sum([pg_sessions(r, 64, [b], 1) for b in (5, 16, 33, 64)], [])
    rsa = rsa_ops(r, 32, mixed_keys(r, 3, [24, 48, 64])) + export_sessions(r, length_keys(r, 6)) + import_good(r, mixed_keys(r, 2, [24, 48]), 12)
    prim = prime_tests(r, 64, [(x, factor(x)) for x in range(3, 300)] + [(x, factor(x) or pollard(x)) for x in CARMICHAEL[:12]], 3, "primes")
    def cp(ss): return [Session(list(s.cmds), s.tag) for s in ss]
    def small(ss): return [Session([x for x in s.cmds], s.tag) for s in ss if not any(x.startswith(("bdivu", "bmodu", "bdivi", "baddu", "baddi", "bsub", "bmulu", "bmuli", "bcmp", "bsetv")) and False for x in s.cmds)]
    parts = []
    for v in ("base", "nd", "port", "no128", "mintab", "noroll"):
        parts.append((v, cp(wide + rsa + misc + prim), (), "the same calls in the %s build" % v))
    for v in ("w32", "w32nd"):
        parts.append((v, cp(both + rsa + prim), (), "the same calls in the %s build" % v))
    parts.append(("base", cp(both), (), "the same calls in the base build"))
    for v in ("base", "port", "mintab", "noroll", "w32"):
        parts.append((v, cp(stream), (), "the same streams in the %s build" % v))
    c.conform_all(T, parts, env=des_env(c))

CHECKS = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 27)}

# Models of the design, explored exhaustively for small parameters before the code is looked at: they justify what the
# specification demands of the recorded executions.  (module, what)
SELF = lambda part: ("SelfTest", "Java-evaluated operators against their TLA+ definitions: " + part, {"SELFTEST": part})
MODELS = {
 "C01": [("AddModel", "carries, borrows, signs, lengths for all small operands"), SELF("num")],
 "C02": [("DivModel", "quotient-digit estimation and correction for all small operands"), SELF("num")],
 "C03": [("CodecModel", "two's-complement octets: decode, encode, decode for all short strings")],
 "C04": [("AddModel", "words that results need")],
 "C05": [("EuclidModel", "extended Euclid: identity, bounds of coefficients, termination")],
 "C06": [("MontModel", "Montgomery multiplication and windows for all small moduli")],
 "C07": [("PrimeModel", "liars of Miller-Rabin for every small number")],
 "C08": [("PrimeModel", "candidate search from every start")],
 "C09": [("RsaModel", "every message of every toy key"), SELF("num")],
 "C10": [("RsaModel", "validity of toy keys and of every altered component")],
 "C11": [("DerModel", "lengths, canonical writing read back")],
 "C12": [("DerModel", "stack parser against the recursive definition for all short strings")],
 "C13": [("StreamModel", "every division of every short message")],
 "C14": [("StreamModel", "paddings of every short message")],
 "C15": [("StreamModel", "chaining values, restarts")],
 "C16": [SELF("cipher")],
 "C17": [SELF("rc4")],
 "C18": [("DigestModel", "every division of every short message")],
 "C19": [SELF("digest")],
 "C20": [("PrngModel", "every sequence of requests"), SELF("prng")],
 "C21": [("PrngModel", "every sequence of requests"), SELF("num")],
 "C22": [("HeapModel", "ownership accounting accepts every correct history and accuses every faulty one")],
 "C23": [("HeapModel", "ownership accounting accepts every correct history and accuses every faulty one")],
 "C24": [("StreamModel", "two contexts alternately"), ("DigestModel", "two contexts alternately"), ("PrngModel", "two generators alternately")],
 "C25": [SELF("num")],
}
def models(c):
    for m, what, *env in MODELS.get(c.pid, []):
        t = m + "T.cfg"
        c.model(m, t if THOROUGH and os.path.exists(os.path.join(SPEC, t)) else None, what, env=env[0] if env else None)

def run(pid):
    c = Check(pid)
    try:
        models(c)
        CHECKS[pid](c)
    except Infra as x:
        if not c.viol: raise
        print("ERROR %s: %s" % (pid, x))      # a violation was found before the check failed
    return c.finish()
