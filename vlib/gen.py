"""Session generators: each returns a list of Session objects (scripts of public API calls).
They choose inputs; all judgements are made by the specification."""
from .core import Session, hx

def hxi(n):
    """magnitude as hex bytes"""
    n = abs(n)
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big").hex()

def put(k, v): return "bput %d %d %s" % (k, 1 if v < 0 else 0, hxi(v))

def word(r, W):
    c = r.random()
    M = 1 << W
    if c < 0.16: return 0
    if c < 0.32: return M - 1
    if c < 0.38: return 1
    if c < 0.44: return M >> 1
    if c < 0.50: return (M >> 1) - 1
    if c < 0.54: return (M >> 1) + 1
    if c < 0.58: return M - 2
    if c < 0.62: return 1 << r.randrange(W)
    if c < 0.66: return (1 << r.randrange(1, W)) - 1
    if c < 0.70: return M - (1 << r.randrange(W))
    if c < 0.74: return r.randrange(1 << 16)
    if c < 0.78: return ((M - 1) >> (W // 2)) << (W // 2)
    if c < 0.82: return (1 << (W // 2)) - 1
    return r.randrange(M)

def mag(r, W, n):
    """a number of exactly n words built from boundary patterns"""
    v = 0
    c = r.random()
    if c < 0.15:      # runs of equal words
        while v.bit_length() <= W * (n - 1):
            v = 0
            w = word(r, W)
            for i in range(n):
                if r.random() < 0.3: w = word(r, W)
                v = v << W | w
    elif c < 0.25:    # 2^k +- small
        k = r.randrange(W * (n - 1), W * n)
        v = (1 << k) + r.choice([0, 1, -1, 2, -2, (1 << (k // 2)), -(1 << (k // 2))])
        if v.bit_length() > W * n: v = (1 << k)
    else:
        while v.bit_length() <= W * (n - 1):
            v = 0
            for i in range(n): v = v << W | word(r, W)
    return max(v, 0)

def num(r, W, maxw, zero=0.06):
    c = r.random()
    if c < zero: return 0
    v = mag(r, W, r.randint(1, maxw))
    return -v if r.random() < 0.4 else v

def iword(r, W, signed):
    w = word(r, W)
    if signed:
        if w >= 1 << (W - 1): w -= 1 << W
        if w == -(1 << (W - 1)) : w += 1
    return w

def related(r, W, a, maxw):
    c = r.random()
    if c < 0.08: return a
    if c < 0.16: return -a
    if c < 0.22: return a + r.choice([1, -1])
    if c < 0.28: return (1 << (W * r.randint(1, maxw))) - a
    if c < 0.34: return a << r.randrange(0, 3) if abs(a).bit_length() + 2 <= W * maxw else a
    if c < 0.38: return a & ((1 << W) - 1) if a >= 0 else -((-a) & ((1 << W) - 1))
    return num(r, W, maxw)

def clampw(v, W, maxw):
    m = abs(v) & ((1 << (W * maxw)) - 1)
    return -m if v < 0 else m

# ---------------------------------------------------------------- C01 / C25
def arith(r, W, count, maxw=6, div=False, big=False):
    out = []
    for _ in range(count):
        n = r.choice([maxw, maxw, 2, 3]) if not big else maxw
        cap = 2 * n + 3
        cmds = ["bw %d %d" % (k, cap) for k in range(4)]
        a = num(r, W, n); b = clampw(related(r, W, a, n), W, n)
        cmds += [put(0, a), put(1, b)]
        for _ in range(r.randint(4, 9)):
            a = num(r, W, n); b = clampw(related(r, W, a, n), W, n)
            o = r.randrange(21)
            if o == 19:
                if abs(a) < abs(b): a, b = b, a
                cmds += [put(0, a), put(1, b), "bget 0", "bsubr 0 1", "bget 0", "baddr 0 1", "baddr 1 0", "bget 1", "binv 1", "bsubr 1 0"] + r.choice([[], ["baddr 0 0"], ["bsubr 0 0", "bget 0"]])
            elif o == 20: cmds += [put(0, a), put(1, b), "baddr 0 1", "binv 0", "badd 2 0 1", "bget 2"]
            elif o <= 1: cmds += [put(0, a), put(1, b), "%s 2 0 1" % r.choice(["badd", "bsub"])]
            elif o == 2: cmds += [put(0, a), put(1, b), "%s %s" % (r.choice(["badd", "bsub"]), r.choice(["0 0 1", "1 0 1", "0 0 0", "1 1 0", "0 1 0"]))]
            elif o <= 4: cmds += [put(0, a), put(1, b), "bmul 2 0 1"]
            elif o == 5: cmds += [put(0, a), "bsqr 2 0"]
            elif o == 6: cmds += [put(0, a), r.choice(["bdbl 2 0", "bdbl 0 0"])]
            elif o == 7:
                w = iword(r, W, True)
                if r.random() < 0.3: a = clampw(-w + r.choice([0, 0, 1, -1]), W, n)
                cmds += [put(0, a), "%s 0 %d" % (r.choice(["baddi", "bsubi"]), w)]
            elif o == 8:
                w = word(r, W)
                if r.random() < 0.3: a = clampw(r.choice([1, -1]) * w + r.choice([0, 0, 1, -1]), W, n)
                cmds += [put(0, a), "%s 0 %d" % (r.choice(["baddu", "bsubu"]), w)]
            elif o == 9: cmds += [put(0, a), "%s 0 %d" % (("bmuli", iword(r, W, True)) if r.random() < 0.5 else ("bmulu", word(r, W)))]
            elif o == 10:
                s = r.choice([0, 1, W - 1, W, W + 1, 2 * W, r.randrange(W * (n + 1))])
                cmds += [put(0, a), "bshl 0 %d" % s]
            elif o == 11:
                s = r.choice([0, 1, W - 1, W, W + 1, 2 * W, abs(a).bit_length(), max(0, abs(a).bit_length() - 1), W * (n + 1), r.randrange(W * (n + 2)), 0xffffffff, 0x80000000])
                cmds += [put(0, a), "bshr 0 %d" % s]
            elif o == 12: cmds += [put(0, a), put(1, b), "bcmp 0 1", "bcmp 1 0"]
            elif o == 13:
                w = iword(r, W, True)
                if r.random() < 0.5: a = clampw(r.choice([w, -w, w + 1, w - 1]), W, n)
                cmds += [put(0, a), "bcmpi 0 %d" % w, "bbl 0"]
            elif o == 14:
                w = word(r, W)
                if r.random() < 0.5: a = clampw(r.choice([w, -w, w + 1, w - 1]), W, n)
                cmds += [put(0, a), "bcmpu 0 %d" % w, "bbl 0"]
            elif o == 15:
                k = r.randrange(6)
                if k in (0, 2): v = iword(r, W if k == 0 else 64, True)
                elif k == 1: v = iword(r, 32, True)
                else: v = word(r, {3: W, 4: 32, 5: 64}[k])
                cmds += ["bsetv 2 %d %d" % (k, v), "bbl 2", "bcmp 2 0"]
            elif o == 16: cmds += ["bset 2 0", "bclone 5 1", "bcmp 2 0", "bfree 5"]
            elif o == 17:   # chain: (a+b)-b, then doubled and halved; zero results from signed operands
                cmds += [put(0, a), put(1, b), "badd 2 0 1", "bsub 2 2 1", "bcmp 2 0", "bsub 3 2 0", "bcmpi 3 0", "bcmpu 3 0", "badd 3 3 1", "bcmp 3 1", "bdbl 3 3", "bshr 3 1", "bcmp 3 1"]
            else:           # zeros made in different ways are equal
                cmds += [put(0, -abs(a) or -1), "bset 1 0", "bsub 2 0 1", "bsetv 3 0 0", "bcmp 2 3", "bmul 2 0 3", "bcmp 2 3", "bcmp 3 2", put(1, b), "badd 2 2 1", "bcmp 2 1", put(0, -a), "bshr 0 %d" % (abs(a).bit_length() + 1), "bcmp 0 3", "bcmp 3 0", "bcmpi 0 0"]
        out.append(Session(cmds, "arithmetic"))
    return out

# ---------------------------------------------------------------- C02
def division(r, W, count, maxw=6):
    out = []
    M = 1 << W
    def divisor(n):
        c = r.random()
        if c < 0.25:       # top word a power of two or just above half; low words extreme
            v = r.choice([M >> 1, (M >> 1) + 1, 1, 2, M - 1, 3]) 
            for i in range(n - 1): v = v << W | r.choice([0, M - 1, M - 1, 1, M >> 1, (M >> 1) - 1, r.randrange(M)])
            return v
        return mag(r, W, n) or 1
    for _ in range(count):
        cmds = ["bw %d %d" % (k, 2 * maxw + 4) for k in range(4)]
        for _ in range(r.randint(3, 6)):
            n = r.randint(1, maxw); m = r.randint(1, maxw)
            b = divisor(n); c = r.random()
            if c < 0.5:
                q = mag(r, W, m); rem = r.choice([0, 1, b - 1, b - 1, b - 2 if b > 1 else 0, r.randrange(b), b >> 1]) % b
                a = q * b + rem
            elif c < 0.6:
                a = b + r.choice([-1, 0, 1])
            elif c < 0.7:     # dividend prefix equal to the divisor: the largest digit estimate
                a = (b << (W * m)) - r.choice([1, b, M - 1, r.randrange(1, M)])
            elif c < 0.78:
                a = r.randrange(b)
            elif c < 0.82:
                a = 0
            else: a = mag(r, W, r.randint(1, 2 * maxw))
            a = clampw(a, W, 2 * maxw)
            sa = -a if r.random() < 0.4 else a
            sb = -b if r.random() < 0.4 else b
            cmds += [put(0, sa), put(1, sb)]
            o = r.random()
            if o < 0.35: cmds.append("bdiv 2 3 0 1")
            elif o < 0.5: cmds.append("bdiv " + r.choice(["0 3 0 1", "2 0 0 1", "1 3 0 1", "2 1 0 1", "0 1 0 1", "1 0 0 1", "2 3 1 1", "1 3 1 1"]))   # results stored in the operands
            elif o < 0.58: cmds.append("bmod 3 0 1")
            elif o < 0.65: cmds.append("bmod " + r.choice(["0 0 1", "1 0 1", "3 1 1", "1 1 1"]))
            elif o < 0.72: cmds.append("bdiv 2 3 0 1"), cmds.append("bmul 0 2 1"), cmds.append("badd 0 0 3")
            else:
                w = word(r, W) or 1
                k = r.random()
                nr = r.choice(["", "", " -"])          # the remainder may not be asked for
                if k < 0.4: cmds.append("bdivu 0 %d%s" % (w, nr))
                elif k < 0.6: cmds.append("bmodu 0 %d" % w)
                else: cmds.append("bdivi 0 %d%s" % (iword(r, W, True) or -1, nr))
        out.append(Session(cmds, "division"))
    return out

def divzero(r, W, count):
    out = []
    for _ in range(count):
        n = r.randint(1, 4)
        out.append(Session(["bw %d 10" % k for k in range(4)] + [put(0, num(r, W, n)), put(1, 0), r.choice(["bdiv 2 3 0 1", "bmod 3 0 1", "bdivu 0 0", "bdivi 0 0", "bmodu 0 0"]), "bcmp 0 1"], "division by zero"))
    return out

# ---------------------------------------------------------------- C03
def codec(r, W, count, maxb=40):
    out = []
    for _ in range(count):
        K = max(16, (maxb + 40) // (W // 8))
        cmds = ["bw 0 %d" % K, "bw 1 %d" % K]
        for _ in range(r.randint(4, 8)):
            c = r.random()
            n = r.randint(1, maxb)
            if r.random() < 0.4: n = r.choice([1, W // 8 - 1, W // 8, W // 8 + 1, 2 * W // 8, 2 * W // 8 + 1, 3 * W // 8]) or 1
            if c < 0.35: s = r.randbytes(n)
            elif c < 0.5: s = bytes([r.choice([0, 255])]) * r.randint(0, n) + r.randbytes(n)
            elif c < 0.6: s = bytes([r.choice([0, 255, 128, 127, 1, 254])]) + bytes([r.choice([0, 255])]) * n
            elif c < 0.7: s = bytes([r.choice([0, 255])]) * n
            elif c < 0.8: s = bytes([0] * r.randint(0, 3)) + bytes([r.choice([128, 127, 255, 1])]) + r.randbytes(n)
            else: s = bytes([255] * r.randint(0, 3)) + bytes([r.choice([128, 127, 255, 1, 0])]) + r.randbytes(n)
            s = s[:max(100, maxb + 30)]
            sg = r.random() < 0.6
            cmds.append("%s 0 %s" % ("bsb" if sg else "bsub8", s.hex()))
            cmds.append("btb 0 -1")
            v = int.from_bytes(s, "big", signed=sg)
            need = 1
            while not (-(1 << (8 * need - 1)) <= v < 1 << (8 * need - 1)): need += 1
            for k in r.sample([need - 1, need, need + 1, need + 9, 0, 1], 3): cmds.append("btb 0 %d" % max(0, k))
            fn = max(1, (abs(v).bit_length() + 7) // 8)
            cmds.append("btf 0 -1")
            for k in r.sample([fn - 1, fn, fn + 1, fn + 13, fn + 64, 0], 3): cmds.append("btf 0 %d" % max(0, k))
        for _ in range(3):
            n = r.randint(1, 6)
            v = num(r, W, n)
            if r.random() < 0.4: v = r.choice([1, -1]) * (1 << r.randrange(1, W * n)) + r.choice([0, 1, -1])
            v = clampw(v, W, 15)
            need = 1
            while not (-(1 << (8 * need - 1)) <= v < 1 << (8 * need - 1)): need += 1
            cmds += [put(0, v), "btb 0 -1", "btb 0 %d" % need, "btb 0 %d" % (need - 1), "btf 0 -1", "btf 0 %d" % r.randint(0, 60),
                     "bsb 1 %s" % v.to_bytes(need, "big", signed=True).hex(), "bcmp 0 1"]
        # zeros that come out of computations, some of them with a sign
        x = iword(r, W, True) or -1
        zero = r.choice([[put(0, x), "baddi 0 %d" % -x], [put(0, x), "bmuli 0 0"], [put(0, -abs(x)), "bshr 0 %d" % (W * 3)], [put(0, -6), put(1, 3), "bmod 0 0 1"], [put(0, -1), "bdivu 0 2"],
                         [put(0, 0), "binv 0"], [put(0, x), "bsub 0 0 0", "binv 0"], [put(0, -5), put(1, 7), "bmul 1 0 0", "bmuli 0 0", "binv 0"], ["bsub8 0 0000", "binv 0"]])
        cmds += zero + ["btb 0 -1", "btb 0 1", "btb 0 0", "btb 0 3", "btf 0 -1", "btf 0 0", "btf 0 1", "btf 0 %d" % r.randint(2, 40), "bcmpi 0 0", "bbl 0", "bclone 3 0", "btf 3 4", "btb 3 5"]
        out.append(Session(cmds, "encoding"))
    return out

# ---------------------------------------------------------------- C04
def capacity(r, W, count):
    out = []
    B = W // 8
    for _ in range(count):
        cmds = []
        caps = [r.randint(1, 6) for _ in range(4)]
        for k, c in enumerate(caps): cmds.append("bw %d %d" % (k, c))
        for _ in range(r.randint(3, 6)):
            na = r.randint(1, caps[0]); nb = r.randint(1, caps[1])
            a = num(r, W, na); b = clampw(related(r, W, a, nb), W, caps[1])
            a = clampw(a, W, caps[0])
            cmds += [put(0, a), put(1, b), "bsetv 2 0 1", "bsetv 3 0 1"]
            o = r.randrange(17)
            if o == 16:
                if r.random() < 0.5: cmds.append(r.choice(["baddr 0 1", "baddr 1 0"]))
                else: cmds += [put(0, r.choice([1, -1]) * ((1 << (W * caps[0])) - r.choice([1, 2, abs(b) or 1, abs(b) + 1]) if abs(b) < 1 << (W * caps[0]) else 5)), "baddr 0 1"]
            elif o <= 1: cmds.append("%s 2 0 1" % r.choice(["badd", "bsub"]))
            elif o == 2: cmds.append("%s %s" % (r.choice(["badd", "bsub"]), r.choice(["0 0 1", "1 0 1", "0 0 0"])))
            elif o == 3: cmds.append("bmul 2 0 1")
            elif o == 4: cmds.append(r.choice(["bsqr 2 0", "bdbl 2 0", "bdbl 0 0"]))
            elif o == 5: cmds.append("bmod 2 0 1")
            elif o <= 7: cmds.append("bdiv 2 3 0 1")
            elif o == 8:
                m = (1 << (W * caps[0])) - r.choice([1, 1, 2, r.randrange(1, 1 << W)])
                cmds += [put(0, r.choice([1, -1]) * m), "%s 0 %d" % (r.choice(["baddi", "bsubi", "bmuli"]), iword(r, W, True))]
            elif o == 9:
                m = (1 << (W * caps[0])) - r.choice([1, 1, 2, r.randrange(1, 1 << W)])
                cmds += [put(0, r.choice([1, -1]) * m), "%s 0 %d" % (r.choice(["baddu", "bsubu", "bmulu"]), word(r, W))]
            elif o == 10:
                room = W * caps[0] - abs(a).bit_length()
                cmds.append("bshl 0 %d" % max(0, r.choice([room, room + 1, room - 1, room + W, r.randrange(W * 8), 0xffffffff, 0x80000000, 0xffffffc0])))
            elif o == 11: cmds.append("bset 2 0")
            elif o == 12:
                n = max(0, B * caps[2] + r.choice([-1, 0, 1, 2, B]))
                s = r.choice([r.randbytes(n), b"\0" * r.randint(0, 9) + r.randbytes(n), b"\xff" * n, b"\xff" * 9 + r.randbytes(n), b"\x80" + b"\0" * max(0, n - 1), b""])
                cmds.append("%s 2 %s" % (r.choice(["bsb", "bsub8"]), hx(s)))
            elif o == 13: cmds.append("bshr 0 %d" % r.choice([0, 1, W, W * caps[0], 0xffffffff, r.randrange(W * 8)]))
            elif o == 14: cmds += ["bput 1 0 00" , r.choice(["bdiv 2 3 0 1", "bmod 2 0 1", "bdivu 0 0"])]
            else: cmds += ["brnd 2 %d -1" % r.choice([W * caps[2], W * caps[2] + 1, W * caps[2] - 1, r.randrange(1, W * 8)])]
        out.append(Session(cmds, "capacities %s" % caps))
    return out

def sizes(r, W):
    """numbers of every small size, of no stated size, and copies of them"""
    out = []
    for w in [0, -1, -100] + list(range(1, 12)) + [99, 100, 101]:
        for op, n in (("bw", w), ("bn", w * W), ("bn", w * W - 1), ("bn", w * W + 1), ("bn", w * W - W + 1)):
            if op == "bn" and -W < n <= 0 and n: continue
            cap = (100 if n <= 0 else max(2, n if op == "bw" else -(-n // W))) * W
            v = r.choice([1, -1]) * ((1 << cap) - r.choice([1, 1, 2, 1 << (cap // 2)]))
            c = ["%s 0 %d" % (op, n), "bget 0", put(0, v), "bget 0", "bclone 1 0", "bget 1", "bcmp 0 1", "bshr 0 %d" % (cap - 2), "bget 0", "bclone 2 0", "bget 2", "baddi 1 %d" % (-1 if v > 0 else 1), "bset 0 1", "bsetv 2 2 -9223372036854775807", "bget 2", "bset 0 2"]
            for x in (0, 1, 2, -1, -2, 3, 1 << W, (1 << W) + 1, (1 << W) + 2): c += [put(0, x), "bget 0"]
            out.append(Session(c + ["bfree 0", "bcfree 1", "bfree 2"], "sizes"))
    return out

def tight(r, W, count):
    """results that fit exactly: they must be produced"""
    out = []
    for _ in range(count):
        n = r.randint(1, 5); m = r.randint(1, 5)
        a = mag(r, W, n) or 1; b = mag(r, W, m) or 1
        wd = lambda v: max(1, -(-abs(v).bit_length() // W))
        sa = r.choice([1, -1]) * a; sb = r.choice([1, -1]) * b
        c = ["bw 0 %d" % n, "bw 1 %d" % m, put(0, sa), put(1, sb)]
        pw = -(-(a.bit_length() + b.bit_length()) // W)
        c += ["bw 2 %d" % pw, "bmul 2 0 1", "bfree 2"]
        c += ["bw 2 %d" % max(wd(sa + sb), n, m), "badd 2 0 1", "bfree 2", "bw 2 %d" % max(wd(sa - sb), n, m), "bsub 2 0 1", "bfree 2"]
        c += ["bw 2 %d" % max(wd(a + b), n), put(2, sa), "baddr 2 1", "bfree 2", "bw 2 %d" % n, put(2, sa)] + (["bsubr 2 1"] if a >= b else []) + ["bfree 2"]
        c += ["bw 2 %d" % m, "bmod 2 0 1", "bfree 2"]
        q = sa // sb
        c += ["bw 2 %d" % max(1, n - m + 1, wd(q)), "bw 3 %d" % m, "bdiv 2 3 0 1", "bfree 2", "bfree 3"]
        c += ["bw 2 %d" % max(n, wd(2 * a)), "bdbl 2 0", "bfree 2"]
        s = r.randrange(0, 3 * W)
        c += ["bw 2 %d" % wd(a << s), put(2, a), "bshl 2 %d" % s, "bshr 2 %d" % s, "bcmpi 2 0", "bfree 2"]
        out.append(Session(c, "tight"))
    return out

# ---------------------------------------------------------------- C05 / C06
def fibs(n):
    a, b = 1, 1
    while a.bit_length() < n: a, b = b, a + b
    return a, b

def gcds(r, W, count, maxw=5):
    out = []
    for _ in range(count):
        cmds = ["bw %d %d" % (k, maxw + 1) for k in range(5)]
        for _ in range(r.randint(2, 4)):
            c = r.random()
            if c < 0.25: m, n = r.randint(1, 40), r.randint(1, 40)
            elif c < 0.4:
                x, y = fibs(r.randint(2, W * maxw - 2)); m, n = (x, y) if r.random() < 0.5 else (y, x)
            elif c < 0.55:
                g = mag(r, W, r.randint(1, 2)) or 1; m, n = g * (mag(r, W, r.randint(1, 2)) or 1), g * (mag(r, W, r.randint(1, 2)) or 1)
            elif c < 0.65:
                n = mag(r, W, r.randint(1, 2)) or 1; m = n * r.choice([1, 2, 3, (1 << W) - 1, 1 << r.randrange(W)])
                if r.random() < 0.5: m, n = n, m
            elif c < 0.75: m, n = mag(r, W, maxw) or 1, r.choice([1, 2, 3, (1 << W) - 1, mag(r, W, 1) or 1])
            elif c < 0.8: m, n = 1 << r.randrange(W * maxw), (mag(r, W, r.randint(1, maxw)) | 1)
            else: m, n = mag(r, W, r.randint(1, maxw)) or 1, mag(r, W, r.randint(1, maxw)) or 1
            if r.random() < 0.3: m, n = n, m
            m = clampw(m, W, maxw) or 1; n = clampw(n, W, maxw) or 1
            cmds += [put(3, m), put(4, n)]
            o = r.random()
            if o < 0.2: cmds.append("gcd 0 3 4")
            elif o < 0.28:                            # a single result stored in an input
                k = r.randrange(3); cmds.append("gcdx %s %s 4 %d" % (" ".join(str(r.choice([3, 4])) if i == k else "-" for i in range(3)), r.choice("333334"), r.randrange(2)))
            elif o < 0.35: cmds.append(r.choice(["gcd 3 3 4", "gcd 4 3 4", "gcd 0 3 3", "gcd 3 3 3", "gcdx 3 - - 3 4 1", "gcdx - 3 - 3 4 %d" % r.randrange(2), "gcdx - - 4 3 4 %d" % r.randrange(2), "gcdx 0 1 2 3 3 %d" % r.randrange(2)]))   # results stored in the operands
            else: cmds.append("gcdx %s %s %s 3 4 %d" % (r.choice(["0", "0", "-"]), r.choice(["1", "1", "-"]), r.choice(["2", "2", "-"]), r.randrange(2)))
        out.append(Session(cmds, "gcd"))
    return out

def small_gcds(lim):
    out = []
    for u in (0, 1):
        for m in range(1, lim):
            cmds = ["bw %d 3" % k for k in range(5)]
            for n in range(1, lim):
                cmds += [put(3, m), put(4, n), "gcdx 0 1 2 3 4 %d" % u] + (["gcd 0 3 4"] if u else [])
                k = (m + n) % 6                        # one result into an input
                cmds += ["gcdx %s 3 4 %d" % (" ".join(str(3 + k % 2) if i == k // 2 else "-" for i in range(3)), u)]
            out.append(Session(cmds, "all pairs (%d, 1..%d)" % (m, lim - 1)))
    return out

def gcd_errors():
    return [Session(["bw %d 4" % k for k in range(5)] + [put(3, m), put(4, n), "gcd 0 3 4", "gcdx 0 1 2 3 4 1", "gcdx 0 1 2 3 4 0"], "zero input")
            for m, n in ((0, 0), (0, 5), (7, 0), (0, 1 << 90))]

def odd_modulus(r, W, n):
    c = r.random()
    if c < 0.2: return (1 << (W * n)) - 1
    if c < 0.3: return (1 << (W * n)) - r.choice([3, 5, 59, 189])
    if c < 0.4: return (1 << (W * n - 1)) + 1
    if c < 0.5: return (1 << (W * (n - 1))) + 1 if n > 1 else 3
    return mag(r, W, n) | 1

def expmods(r, W, count, maxw=4, maxe=2):
    out = []
    for _ in range(count):
        n = r.randint(1, maxw)
        N = odd_modulus(r, W, n)
        if N == 1: N = 3
        nw = -(-N.bit_length() // W)
        cmds = ["bw %d %d" % (k, 2 * maxw + 2) for k in range(4)] + [put(0, N), "mc 0 0"]
        for _ in range(r.randint(2, 4)):
            c = r.random()
            top = (1 << (W * nw)) - 1
            base = r.choice([0, 1, 2, N - 1, N, N + 1 if N < top else N, top, r.randrange(N), r.randrange(N), r.randrange(top + 1), 1 << (W * nw - 1)])
            base = min(base, top)
            ce = r.random()
            if ce < 0.3: e = r.randrange(0, 70)
            elif ce < 0.45: e = (1 << r.randrange(1, W * maxe)) + r.choice([0, -1, 1])
            elif ce < 0.55: e = r.choice([3, 17, 65537, N - 1, N - 2 if N > 2 else 1, N]) & ((1 << (W * maxe)) - 1)
            else: e = mag(r, W, r.randint(1, maxe))
            cmds += [put(1, base), put(2, e)]
            cmds.append(r.choice(["me 0 3 1 2", "me 0 3 1 2", "me 0 1 1 2", "me 0 2 1 2", "me 0 1 1 1", "me 0 0 1 2"]))   # the modulus object may be reused
        cmds.append("mx 0")
        out.append(Session(cmds, "modulus of %d words" % nw))
    return out

def expmod_carries(r, W, count, maxw=5):
    """moduli and bases for which, in a Montgomery reduction of base*R, a word of the product m*N plus the word carried
    over is all ones while the addition carries: the carry of the carry"""
    out = []; B = 1 << W
    for _ in range(count):
        nw = r.randint(2, maxw); hit = r.randrange(1, nw)
        while True:
            N = [r.getrandbits(W) for _ in range(nw)]; N[0] |= 1; N[-1] |= 1 << (W - 1)
            T = [r.choice([r.getrandbits(W), r.getrandbits(W), B - 1, 0]) for _ in range(nw)]; T[0] |= 1; T[-1] >>= 1
            m = T[0] * -pow(N[0], -1, B) % B
            if m & 1 == 0: continue
            cw = c = 0; ok = False
            for j in range(hit + 1):
                if j == hit:
                    ok = c == 1
                    N[j] = (B - 1 - cw) * pow(m, -1, B) % B
                    break
                if j == hit - 1 and j: T[j] = B - 1
                v = N[j] * m + cw + c
                c = (T[j] + v % B) >> W; cw = v >> W
            n = sum(x << (W * i) for i, x in enumerate(N)); t = sum(x << (W * i) for i, x in enumerate(T))
            if ok and t < n and n >> (W * (nw - 1)): break
        a = t * pow(1 << (W * nw), -1, n) % n
        cmds = ["bw %d %d" % (k, 2 * maxw + 2) for k in range(4)] + [put(0, n), "mc 0 0", put(1, a)]
        for e in (1, r.choice([2, 3, 5]), mag(r, W, 1)): cmds += [put(2, e), "me 0 3 1 2"]
        out.append(Session(cmds + ["mx 0"], "carry of the carry in a reduction by %d words" % nw))
    return out

def small_expmods(ns, bmax, emax):
    out = []
    for N in ns:
        cmds = ["bw %d 4" % k for k in range(4)] + [put(0, N), "mc 0 0"]
        for b in range(bmax):
            for e in range(emax): cmds += [put(1, b), put(2, e), "me 0 3 1 2"]
        out.append(Session(cmds + ["mx 0"], "modulus %d, all small bases and exponents" % N))
    return out

def expmod_errors(r, W, count):
    out = []
    for _ in range(count):
        n = r.randint(1, 3)
        out.append(Session(["bw %d 8" % k for k in range(4)] + [put(0, r.choice([0, 2, mag(r, W, n) & ~1, 1 << r.randrange(W * n)])), "mc 0 0"], "undefined modulus"))
        N = odd_modulus(r, W, n)
        if N == 1: N = 3
        nw = -(-N.bit_length() // W)
        out.append(Session(["bw %d 8" % k for k in range(4)] + [put(0, N), "mc 0 0", put(1, 1 << (W * nw) | r.randrange(1 << W)), put(2, 5), "me 0 3 1 2", put(1, N - 1), "me 0 3 1 2", "mx 0"], "base longer than the modulus"))
    return out

# ---------------------------------------------------------------- C07 / C08
def sieve(n):
    s = bytearray([1]) * (n + 1); s[0:2] = b"\0\0"
    for i in range(2, int(n ** 0.5) + 1):
        if s[i]: s[i * i::i] = bytearray(len(s[i * i::i]))
    return [i for i in range(n + 1) if s[i]]

def mr(n, bases=(2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)):
    if n < 2: return False
    for p in bases:
        if n % p == 0: return n == p
    d = n - 1; s = 0
    while d % 2 == 0: d //= 2; s += 1
    for a in bases:
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

_TRIAL = []
def nextprime(n):
    from math import gcd
    n |= 1
    if n.bit_length() < 200:
        while not mr(n): n += 2
        return n
    if not _TRIAL:
        x = 1
        for q in sieve(6000)[1:]: x *= q
        _TRIAL.append(x)
    while gcd(n, _TRIAL[0]) != 1 or not mr(n): n += 2
    return n

def sized_primes(r, bits, count):
    return [nextprime(r.getrandbits(bits) | 3 << (bits - 2)) for _ in range(count)]

def key_of(p, q, e=65537):
    """the key with these primes, or None"""
    from math import gcd
    phi = (p - 1) * (q - 1)
    if p == q or gcd(e, phi) != 1: return None
    d = pow(e, -1, phi)
    return [p * q, e, d, p, q, d % (p - 1), d % (q - 1), pow(q, -1, p)]

CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217, 162401, 172081, 188461, 252601,
              278545, 294409, 314821, 334153, 340561, 399001, 410041, 449065, 488881, 512461, 825265, 321197185, 5394826801, 232250619601, 9746347772161, 1436697831295441]
PSEUDO = [2047, 3277, 4033, 4681, 8321, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461]

def prime_tests(r, W, nums, rep, tag):
    """nums: (number, factor or 0); several per session"""
    out = []
    for i in range(0, len(nums), 8):
        part = nums[i:i + 8]
        wmax = max(2, max(-(-abs(n).bit_length() // W) for n, f in part) + 1)
        cmds = ["bw 0 %d" % wmax]
        for n, f in part:
            k = rep if isinstance(rep, int) else rep(n)
            cmds += [put(0, n), "pt 0 %d %s" % (k, hxi(f) if f else "-")]
        out.append(Session(cmds, tag))
    return out

# ---------------------------------------------------------------- ciphers
CIPHERS = {"aes": (16, [16, 24, 32]), "des": (8, [8, 16, 24]), "seed": (16, [16]), "aria": (16, [16, 24, 32]), "blowfish": (8, [1, 2, 3, 4, 5, 7, 8, 13, 16, 24, 31, 32, 55, 56])}
MODES = ["ecb", "cbc", "cfb", "ofb"]
def ckey(r, ci, kl=None): return r.randbytes(kl or r.choice(CIPHERS[ci][1]))

def stream_session(r, ci, mode, enc, pieces, iv=True, inplace=False, final=None, reinit=False):
    bs = CIPHERS[ci][0]
    c = ["cc 0 %s %s %s" % (ci, mode, ckey(r, ci).hex())]
    if iv: c.append("cs 0 " + r.randbytes(bs).hex())
    fill = 0
    for n in pieces:
        c.append("%s 0 %s%s" % ("ce" if enc else "cd", hx(r.randbytes(n)), " 1" if inplace and fill == 0 and n % bs == 0 else ""))
        fill = (fill + n) % bs
    c.append("cg 0")
    if final: c += ["c%sf 0 %s %s" % ("e" if enc else "d", hx(r.randbytes(final[0])), final[1]), "cg 0"]
    c.append("cx 0")
    return Session(c, "%s %s %s" % (ci, mode, "encrypt" if enc else "decrypt"))

# ---------------------------------------------------------------- digests
DIGS = {"md2": 16, "md4": 64, "md5": 64, "sha1": 64, "sha224": 64, "sha256": 64, "sha384": 128, "sha512": 128, "sha512_224": 128, "sha512_256": 128, "has160": 64}
ONESHOT = ["md2", "md4", "md5", "sha1", "sha256", "sha512", "has160"]

# ---------------------------------------------------------------- RSA
def rsa_key(r, pb, qb=None, e=65537):
    qb = qb or pb
    from math import gcd
    while True:
        p = nextprime(r.getrandbits(pb) | 1 << (pb - 1) | 1 << (pb - 2)); q = nextprime(r.getrandbits(qb) | 1 << (qb - 1) | 1 << (qb - 2))
        if p == q or p.bit_length() != pb or q.bit_length() != qb: continue
        phi = (p - 1) * (q - 1)
        if gcd(e, phi) != 1: continue
        d = pow(e, -1, phi)
        return [p * q, e, d, p, q, d % (p - 1), d % (q - 1), pow(q, -1, p)]

def twos(v):
    n = 1
    while not (-(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1)): n += 1
    return v.to_bytes(n, "big", signed=True)

def ln(n, form=None):
    """BER length: form None minimal, k: k bytes long form, 'i': indefinite"""
    if form is None:
        if n < 128: return bytes([n])
        k = (n.bit_length() + 7) // 8
    else: k = form
    return bytes([128 + k]) + n.to_bytes(k, "big")

def tlv(t, body, form=None):
    if form == "i": return bytes([t, 128]) + body + b"\0\0"
    return bytes([t]) + ln(len(body), form) + body
OID = bytes.fromhex("2a864886f70d010101")
def der_int(v, form=None): return tlv(2, twos(v), form)
def pkcs1_pub(k, F=lambda: None): return tlv(0x30, der_int(k[0]) + der_int(k[1]), F())
def pkcs1_priv(k, F=lambda: None, extra=b""): return tlv(0x30, der_int(0) + b"".join(der_int(x) for x in k) + extra, F())
def algid(F=lambda: None, oid=OID): return tlv(0x30, tlv(6, oid) + b"\x05\x00", F())
def spki(k, F=lambda: None, oid=OID): return tlv(0x30, algid(F, oid) + tlv(3, b"\0" + pkcs1_pub(k, F)), F())
def pkcs8(k, F=lambda: None, oid=OID, extra=b""): return tlv(0x30, der_int(0) + algid(F, oid) + tlv(4, pkcs1_priv(k, F)) + extra, F())

# ================================================================ ciphers: walks over the control model
def cipher_walk(r, ci, mode, walk, maxdata=None):
    """one session from a walk of StreamWalk edges"""
    bs = CIPHERS[ci][0]
    key = ckey(r, ci).hex()
    c = ["cc 0 %s %s %s" % (ci, mode, key)]
    if r.random() < 0.5: c.append("cs 0 " + r.randbytes(bs).hex())
    for src, op, arg, dst in walk:
        if op == "cs": c.append("cs 0 " + {"new": r.randbytes(bs).hex(), "current": ".", "zero": "00" * bs}[arg])
        elif op == "cg": c.append("cg 0")
        elif op == "ci":
            m2 = mode if r.random() < 0.5 else r.choice(MODES)
            if arg != "samekey": key = ckey(r, ci).hex()
            c.append("ci 0 %s %s" % (m2, key))
        elif op in ("ce", "cd"):
            n = int(arg)
            c.append("%s 0 %s%s" % (op, hx(r.randbytes(n)), " 1" if src[0] == "0" and n % bs == 0 and r.random() < 0.4 else ""))
        else:
            n, pad = arg.split(":")
            n = int(n)
            d = r.randbytes(n)
            c.append("%s 0 %s %s" % (op, hx(d), pad))
    c.append("cx 0")
    return Session(c, "%s %s walk" % (ci, mode))

def two_contexts(r, ci, mode, n):
    """the same message whole and in pieces, in two contexts: the outputs agree because both are the specified bytes"""
    bs = CIPHERS[ci][0]
    key, iv = ckey(r, ci), r.randbytes(bs)
    msg = r.randbytes(n)
    c = []
    for d in "ed":
        for h in (0, 1):
            c += ["cc %d %s %s %s" % (h, ci, mode, key.hex()), "cs %d %s" % (h, iv.hex())]
        c.append("c%s 0 %s" % (d, hx(msg)))
        i = 0
        while i < n:
            k = min(n - i, r.choice([0, 1, 1, 2, 3, bs - 1, bs, bs + 1, 2 * bs, r.randrange(3 * bs)]))
            c.append("c%s 1 %s" % (d, hx(msg[i:i + k]))); i += k
        c += ["cg 0", "cg 1", "cx 0", "cx 1"]
    return Session(c, "%s %s whole and split" % (ci, mode))

def big_message(r, ci, mode, n):
    """n bytes in a single call, then the rest in two"""
    key = ckey(r, ci); msg = r.randbytes(n); d = r.choice("ed"); j = r.randrange(n // 3)
    return Session(["cc 0 %s %s %s" % (ci, mode, key.hex()), "cs 0 " + r.randbytes(CIPHERS[ci][0]).hex(), "c%s 0 %s" % (d, hx(msg)), "c%s 0 %s" % (d, hx(msg[:j])), "c%s 0 %s" % (d, hx(msg[j:2 * j])), "cg 0", "cx 0"], "%s %s, %d bytes at once" % (ci, mode, n))

def encrypt_for(r, ci, mode, key, iv, msg):
    return Session(["cc 0 %s %s %s" % (ci, mode, key.hex()), "cs 0 " + iv.hex(), "ce 0 " + hx(msg)], "prepare")

def pad_cases(r, bs):
    """plaintexts whose endings are valid and nearly valid PKCS#7 paddings"""
    out = []
    for p in range(0, bs + 3):
        body = r.randbytes(bs * r.randint(0, 2))
        last = bytearray(r.randbytes(bs))
        for i in range(max(0, bs - p), bs): last[i] = p
        last[-1] = p
        out.append(body + bytes(last))
        if 2 <= p <= bs:
            k = r.randrange(bs - p, bs - 1)
            bad = bytearray(last); bad[k] ^= 1 << r.randrange(8)
            out.append(body + bytes(bad))
            bad = bytearray(last); bad[bs - p] ^= 1 << r.randrange(8)
            out.append(body + bytes(bad))
            bad = bytearray(last); bad[bs - 2] ^= 0x80
            out.append(body + bytes(bad))
    for p in (bs + 1, bs + r.randint(2, bs), 2 * bs, 16, 17, 32, 33, 64): out.append(r.randbytes(bs * r.randint(0, 1)) + bytes([p]) * (-(-p // bs) * bs))   # more than a block, all of it there
    for p in (0x80, 0xff, 0x7f, bs + 1, 2 * bs, 2 * bs + 1, 0): out.append(r.randbytes(bs) + bytes([p]) * bs)
    return out

# ================================================================ RC4
def rc4_sessions(r, count):
    out = []
    for i in range(count):
        kl = i % 40 + 1 if i < 80 else r.choice([1, 2, 5, 16, 32, 255, 256, 257, 300, 511, r.randint(1, 600)])
        c = ["4c 0 " + r.randbytes(kl).hex()]
        for _ in range(r.randint(3, 8)):
            n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 63, 255, 256, 257, r.randrange(400)])
            c.append("%s 0 %s %d" % (r.choice(["4e", "4d"]), hx(r.randbytes(n)), r.random() < 0.3))
            if r.random() < 0.12: c.append("4i 0 " + r.randbytes(r.choice([1, 5, 16, 256, 300])).hex())
        c.append("4x 0")
        out.append(Session(c, "key of %d bytes" % kl))
    return out

def rc4_long(r, count):
    out = []
    for _ in range(count):
        k = r.randbytes(r.randint(1, 40)); n = r.choice([4096, 8191, 9000, 65535, 65536, 65537, 66000, r.randrange(70000)]); m = r.randbytes(n); j = r.randrange(n)
        out.append(Session(["4c 0 " + k.hex(), "4c 1 " + k.hex(), "4e 0 %s 0" % hx(m), "4d 1 %s 0" % hx(m[:j]), "4d 1 %s 1" % hx(m[j:]), "4e 0 %s 0" % hx(m[:40]), "4x 0", "4x 1"], "long message"))
    out.append(Session(["4c 0 " + r.randbytes(16).hex(), "4e 0 %s 0" % hx(r.randbytes((1 << 20) + r.randrange(1, 9999))), "4e 0 %s 0" % hx(r.randbytes(300)), "4x 0"], "more than a mebibyte in one call"))
    return out

def rc4_pairs(r, count):
    out = []
    for _ in range(count):
        k = r.randbytes(r.randint(1, 40)); msg = r.randbytes(r.randint(0, 600))
        c = ["4c 0 " + k.hex(), "4c 1 " + k.hex(), "4c 2 " + r.randbytes(7).hex(), "4e 0 %s 0" % hx(msg)]
        i = 0
        while i < len(msg):
            n = min(len(msg) - i, r.choice([0, 1, 2, 5, 16, 100, 256])); c.append("%s 1 %s 0" % (r.choice(["4e", "4d"]), hx(msg[i:i + n]))); i += n
            if r.random() < 0.3: c.append("4e 2 %s 0" % hx(r.randbytes(r.randrange(20))))
        c += ["4i 0 " + k.hex(), "4d 0 %s 1" % hx(msg), "4x 0", "4x 1", "4x 2"]
        out.append(Session(c, "whole and split"))
    return out

# ================================================================ digests
FL = {"sha256": [0, 1], "sha512": [0, 1], "sha224": [0, 1], "sha384": [0, 1], "sha512_224": [0, 1], "sha512_256": [0, 1]}
def dfl(r, alg): return r.choice(FL.get(alg, [0]))
def digest_walk(r, alg, walk):
    c = ["dc 0 " + alg]
    cur = alg
    for src, op, arg, dst in walk:
        fl = dfl(r, cur)
        if op == "du": c.append("du 0 %d %s" % (fl, hx(r.randbytes(int(arg)))))
        elif op == "df": c.append("df 0 %d" % fl)
        else: c.append("di 0 %s %d" % (cur, fl if cur in ("sha256", "sha512") else 0))
    if walk[-1][1] != "df": c.append("df 0 0")
    c.append("dx 0")
    return Session(c, alg + " walk")

def digest_split(r, alg, n):
    msg = r.randbytes(n)
    c = ["dc 0 " + alg, "dc 1 " + alg, "dc 2 " + r.choice(list(DIGS)), "du 0 0 " + hx(msg), "df 0 0"]
    i = 0
    bl = DIGS[alg]
    while True:
        k = min(n - i, r.choice([0, 1, 1, 2, 3, bl - 1, bl, bl + 1, 2 * bl, r.randrange(3 * bl)]))
        c.append("du 1 %d %s" % (dfl(r, alg), hx(msg[i:i + k]))); i += k
        if r.random() < 0.3: c.append("du 2 0 %s" % hx(r.randbytes(r.randrange(40))))
        if i == n and r.random() < 0.7: break
    c += ["df 1 0", "df 2 0"]
    if alg in ONESHOT: c.append("do %s %s" % (alg, hx(msg)))
    return Session(c, alg + " whole and split")

def digest_switch(r):
    """SHA-2 contexts re-initialised for another variant of the family"""
    fam = r.choice([["sha224", "sha256"], ["sha384", "sha512", "sha512_224", "sha512_256"], ["sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256"]])
    a = r.choice(fam)
    c = ["dc 0 " + a]
    for _ in range(6):
        for _ in range(r.randrange(3)): c.append("du 0 0 " + hx(r.randbytes(r.randrange(150))))
        if r.random() < 0.6: c.append("df 0 0")
        a = r.choice(fam); c.append("di 0 %s 0" % a)
    c += ["du 0 0 " + hx(r.randbytes(r.randrange(150))), "df 0 0", "dx 0"]
    return Session(c, "re-initialised for another variant")

def digest_lengths(r, alg, lens):
    c = ["dc 0 " + alg]
    out = []
    for i, n in enumerate(lens):
        m = r.choice([r.randbytes(n), r.randbytes(n), b"\xff" * n, b"\0" * n])
        c += ["du 0 %d %s" % (dfl(r, alg), hx(m)), "df 0 %d" % dfl(r, alg), "di 0 %s 0" % alg]
        if alg in ONESHOT: c.append("do %s %s" % (alg, hx(m)))
        if len(c) > 30 or i + 1 == len(lens):
            out.append(Session(c + ["dx 0"], alg + " lengths")); c = ["dc 0 " + alg]
    return out

# ================================================================ generators
def rng_sessions(r, count, maxn=400):
    out = []
    for i in range(count):
        alg = i % 4
        bl = [20, 32, 64, 16][alg]
        sl = r.choice([0, 1, 3, 8, 16, 20, 55, 56, 63, 64, 65, 111, 112, 119, 128, 200, r.randrange(300)])
        seed = hx(r.randbytes(sl))
        c = ["gc 0 %d %s" % (alg, seed), "gc 1 %d %s" % (alg, seed), "gc 2 %d %s" % (r.randrange(4), hx(r.randbytes(5)))]
        tot = 0; n = r.randrange(maxn)
        while tot < n:
            k = min(n - tot, r.choice([0, 1, 2, 3, 4, 5, 7, 8, bl - 1, bl, bl + 1, 2 * bl, 3 * bl + 1, r.randrange(100)]))
            c.append("%s 0 %d" % (r.choice(["gb", "gb", "gB"]), k)); tot += k
            if r.random() < 0.2: c.append("gb 2 %d" % r.randrange(50))
        c += ["gb 1 %d" % n, "gb 0 7", "gb 1 7", "gx 0", "gb 1 %d" % (2 * bl), "gx 1", "gx 2"]
        out.append(Session(c, "algorithm %d, seed of %d bytes" % (alg, sl)))
    return out

def rng_walk(r, alg):
    """every offset in the block with every request length around the block end"""
    bl = [20, 32, 64, 16][alg]
    out = []
    for off in range(bl + 1):
        c = []
        for k in sorted({0, 1, 4, max(0, bl - off - 1), bl - off, bl - off + 1, 2 * bl - off, 2 * bl - off + 1}):
            c += ["gc 0 %d %s" % (alg, hx(r.randbytes(6))), "gb 0 %d" % off, "gb 0 %d" % k, "gb 0 %d" % r.randrange(bl + 2), "gx 0"]
        out.append(Session(c, "algorithm %d, offset %d" % (alg, off)))
    return out

ALIGNED_SEEDS = [("ba8a37d2", 8), ("36e4a2a3", 12), ("89082525", 12)]   # SHA-160: the first block holds an all-zero / all-ones word
def derived_sessions(r, W, count, over=True):
    out = []
    for s, off in ALIGNED_SEEDS:
        h = s.encode().hex()
        for pre in (off, off - 4, off % 4, 0):
            c = ["gc 0 0 " + h, "gb 0 %d" % pre] + ["gr 0"] * 4 + ["gb 0 5"]
            c += ["gc 1 0 " + h, "gb 1 %d" % pre] + ["gi 1 0 4294967295", "gi 1 10 20", "gi 1 4294967290 4294967295", "gb 1 5"]
            out.append(Session(c, "extreme stream words"))
        c = ["gc 0 0 " + h, "gb 0 %d" % off, "bw 0 4", "brnd 0 32 0", "gb 0 3"]
        out.append(Session(c, "extreme stream words"))
    for i in range(count):
        alg = r.randrange(4)
        c = ["gc 0 %d %s" % (alg, hx(r.randbytes(r.randint(1, 30)))), "gc 1 %d null" % r.randrange(4)] + ["bw %d %d" % (k, w) for k, w in enumerate((1, 2, 5, 9))]
        for _ in range(r.randint(6, 12)):
            o = r.random()
            g = 0 if r.random() < 0.8 else 1
            if o < 0.2: c.append("gr %d" % g)
            elif o < 0.45:
                lo = r.choice([0, 0, 1, 100, 0x7fffffff, 0x80000000, 0xfffffff0, r.getrandbits(32)])
                hi = r.choice([lo, lo, min(0xffffffff, lo + 1), min(0xffffffff, lo + r.getrandbits(8)), 0xffffffff, min(0xffffffff, lo + r.getrandbits(30))])
                c.append("gi %d %d %d" % (g, lo, hi))
            elif o < 0.9:
                k = r.randrange(4); cap = (2, 2, 5, 9)[k] * W
                bits = r.choice([1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, W - 1, W, W + 1, 2 * W - 1, 2 * W, cap, cap - 1, cap + 1, r.randint(1, cap), r.randint(1, cap)])
                if bits > cap and (not over or r.random() < 0.7): bits = cap
                c.append("%s %d %d %s" % (r.choice(["brnd", "brndo", "brndr"]), k, bits, r.choice(["0", "0", "0", "1", "-1"])))
            else: c.append("gb 0 %d" % r.randrange(9))
        out.append(Session(c, "derived values"))
    return out

def derived_long(r, W, count):
    out = []
    for i in range(count):
        alg = r.randrange(4)
        cap = r.choice([512, 1024, 1088, 2048, 2112, 4096])
        c = ["gc 0 %d %s" % (alg, hx(r.randbytes(r.randint(1, 30)))), "bw 0 %d" % (cap // W), "gc 1 1 null"]
        for _ in range(r.randint(3, 5)):
            bits = r.choice([cap, cap - 1, cap - W, cap - W + 1, cap // 2, r.randint(1, cap), r.randint(1, cap), min(cap, r.choice([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049]))])
            c.append("%s 0 %d %s" % (r.choice(["brnd", "brndo", "brndr"]), bits, r.choice(["0", "0", "0", "1", "-1"])))
        c.append("gb 0 5")
        out.append(Session(c, "derived values of up to %d bits" % cap))
    return out

# ================================================================ primes
def pg_large(r, W, bits):
    """one search per size, twice from equal seeds"""
    out = []
    for b in bits:
        seed = hx(r.randbytes(r.randint(1, 20))); alg = r.randrange(4); w = -(-b // W) + r.randrange(2)
        out.append(Session(["bw 0 %d" % w, "bw 1 %d" % w, "gc 0 %d %s" % (alg, seed), "gc 1 %d %s" % (alg, seed), "pg 0 %d 0 0" % b, "pg 1 %d 1 -1" % b, "bcmp 0 1", "gb 0 9", "gb 1 9", "pt 0 2 -"], "%d bits" % b))
    return out

# searches that try hundreds of candidates (found by running the smallest prime table from many seeds)
LONG_SEARCHES = [(512, 2481), (512, 2227), (768, 3966), (768, 1383), (1024, 1558), (1024, 1161)]
def pg_long(r, W):
    out = []
    for b, s in LONG_SEARCHES:
        seed = "%02x%02x%02x55" % (s & 255, s >> 8 & 255, s >> 16); w = -(-b // W)
        for stop in (0, r.choice([100, 127, 128, 129, 199]), r.choice([255, 256, 257, 258, r.randint(200, 260)])):
            c = ["bw 0 %d" % w, "gc 0 %d %s" % (s & 3, seed)]
            c.append("pg 0 %d 0 0" % b if not stop else "pg 0 %d 0 %d %d" % (b, stop, r.choice([1, -1, 256])))
            out.append(Session(c, "hundreds of candidates of %d bits" % b))
    return out

def pg_sessions(r, W, bits, per, seeded=True):
    out = []
    for b in bits:
        w = max(2, -(-b // W) + 1)
        for _ in range(per):
            seed = hx(r.randbytes(r.randint(1, 20))); alg = r.randrange(4)
            c = ["bw 0 %d" % w, "bw 1 %d" % w, "gc 0 %d %s" % (alg, seed), "gc 1 %d %s" % (alg, seed)]
            pre = r.choice([0, 0, 3, 20])
            if pre: c += ["gb 0 %d" % pre, "gb 1 %d" % pre]
            for _ in range(r.randint(1, 3)):
                cb = r.choice([0, 0, -1])
                c += ["pg 0 %d 0 %d" % (b, cb), "pg 1 %d 1 %d" % (b, r.choice([0, -1])), "bcmp 0 1"]
            c += ["gb 0 9", "gb 1 9"]
            out.append(Session(c, "%d bits, equal seeds" % b))
    return out

def pg_stops(r, W, bits, per):
    out = []
    for b in bits:
        w = -(-b // W) + 1
        for k in range(per):
            c = ["bw 0 %d" % w, "gc 0 %d %s" % (r.randrange(4), hx(r.randbytes(9)))]
            for s in (1, 2, 3, r.randint(1, 12)): c.append("pg 0 %d 0 %d %d" % (b, s, r.choice([1, -1, 2, 256, 65536, -(1 << 31), (1 << 31) - 1])))
            c.append("pg 0 %d 0 0" % b)
            c.append("pg 0 %d -1 %d" % (b, r.choice([0, -1, 1])))
            out.append(Session(c, "%d bits, stopped" % b))
    return out

# ================================================================ RSA
def imp(h, k, priv=True, how=None):
    if priv: return ("ki %d any %s" % (h, pkcs8(k).hex())) if how != "raw" else ("ki %d priv %s" % (h, pkcs1_priv(k).hex()))
    return ("ki %d any %s" % (h, spki(k).hex())) if how != "raw" else ("ki %d pub %s" % (h, pkcs1_pub(k).hex()))

def slots(W, nbits, n=6):
    w = -(-nbits // W) + 2
    return ["bw %d %d" % (k, w) for k in range(n)]

def rsa_ops(r, W, keys):
    """keys: lists of eight numbers"""
    out = []
    for k in keys:
        N, e, d, p, q = k[:5]
        nb = N.bit_length(); nw = -(-nb // W); top = (1 << (W * nw)) - 1
        c = slots(W, nb) + [imp(0, k, True, r.choice(["raw", "any"])), imp(1, k, False, r.choice(["raw", "any"])), "kb 0", "kb 1"]
        ms = [0, 1, N - 1, p, q * r.randrange(1, p), r.randrange(N), r.randrange(N), 2, min(top, N), min(top, N + 1), top]
        for m in r.sample(ms, 5) + [r.randrange(N)]:
            c += [put(0, m), "kn %d enc 0 1" % r.randrange(2), "kn 0 dec 1 2", "kn 0 sign 0 3", "kn %d enc 3 4" % r.randrange(2), "bcmp 2 4"]
            c += ["kv %d 3 4" % r.randrange(2), "kv %d 3 0" % r.randrange(2)]
            sig = pow(m, d, N)
            mm = m % N
            for s2, m2 in r.sample([(sig ^ 1, mm), (sig, mm ^ 1), (sig, (mm + 1) % N), ((sig + 1) % N, mm), (N - sig, mm), (0, mm), (sig, 0), (1, mm), (sig, mm + N), (mm, sig), (sig, -mm if mm else 0), (sig, mm ^ (1 << r.randrange(nb)))], 4):
                if s2.bit_length() <= W * nw and abs(m2).bit_length() <= W * (nw + 2): c += [put(4, s2), put(5, m2), "kv %d 4 5" % r.randrange(2)]
            if r.random() < 0.5: c.append("kn 1 %s 0 1" % r.choice(["dec", "sign"]))
            if r.random() < 0.4: c += ["kn 0 dec 0 0", "kn 0 enc 0 0"]
        c += ["kx 0", "kx 1"]
        out.append(Session(c, "%d-bit key" % nb))
    return out

def rsa_op_errors(r, W, keys):
    out = []
    for k in keys:
        N = k[0]; nb = N.bit_length(); nw = -(-nb // W)
        c = slots(W, nb) + ["bw 6 %d" % max(2, nw // 2), imp(0, k), imp(1, k, False)]
        long_ = (1 << (W * nw)) + r.randrange(1 << W)
        m = r.randrange(N)
        c += [put(0, long_), put(1, m), "kn 0 enc 0 2", "kn 0 dec 0 2", "kn 0 sign 0 2", "kv 0 0 1", "kv 1 0 1", put(2, pow(long_, k[1], N)), "kv 0 0 2"]
        c += ["kn 1 dec 1 2", "kn 1 sign 1 2", "kn 0 enc 1 2", put(3, pow(m, k[2], N)), "kv 1 3 1", "kv 0 3 1", put(4, 0), "kv 0 0 4", "kv 0 4 4", "kn 0 enc 1 6"]
        out.append(Session(c + ["kx 0", "kx 1"], "%d-bit key, failing calls" % nb))
    return out

def rsa_gen(bits, extra=()):
    out = []
    for b in bits:
        out.append(Session(slots(64, b) + ["kc 0 %d" % b, "kb 0", "kk 0", "kex 0 priv 0", "kex 0 pub 0", "kk 0", "kb 0", put(0, 12345678901 if b > 40 else 12345), "kn 0 enc 0 1", "kn 0 dec 1 2", "bcmp 0 2", "kn 0 sign 0 3", "kv 0 3 0", "kv 0 0 3", "kx 0"], "generated, %d bits" % b))
    return out

def rsa_altered(r, keys):
    out = []
    for k in keys:
        N, e, d, p, q, dp, dq, qi = k
        phi = (p - 1) * (q - 1)
        alts = []
        def alt(i, v):
            a = list(k); a[i] = v; alts.append(a)
        for i in range(8):
            nb = max(2, k[i].bit_length())
            vs = [k[i] + 2, k[i] - 2, k[i] ^ (1 << r.randrange(1, nb)), k[i] ^ (1 << r.randrange(1, nb))] if i == 0 else \
                 [k[i] + 1, k[i] - 1, k[i] ^ (1 << r.randrange(nb)), k[i] ^ 1, 0, 1, 2, -k[i]]
            for v in vs: alt(i, v)
        alt(2, d + phi); alt(2, d % ((phi) // 2) if d != d % (phi // 2) else d + 2)
        from math import gcd
        lam = phi // gcd(p - 1, q - 1)
        alt(2, pow(e, -1, lam))
        alt(5, dp + p - 1); alt(6, dq + q - 1); alt(7, qi + p)
        alts.append([N, e, d, q, p, dp, dq, qi])
        alts.append([N, e, d, q, p, dq, dp, qi])
        alts.append([N, e, d, q, p, dq, dp, pow(p, -1, q)])          # a consistent key
        alts.append([N, e, d, N, 1, d % (N - 1), 0, 0])
        alts.append([N, e, d, 1, N, 0, d % (N - 1), 0])
        alts.append([N, e + phi, d, p, q, dp, dq, qi]); alts.append([N, d, e, p, q, e % (p - 1), e % (q - 1), qi])
        alts.append([N, N, d, p, q, dp, dq, qi]); alts.append([N, N + 2, d, p, q, dp, dq, qi])
        out_k = []
        # keys with composite "primes" or equal primes, otherwise consistent
        for P, Q in ((p, p), (p * 3 if (p * 3).bit_length() else p, q), (561, p), (1729, q)):
            ph = (P - 1) * (Q - 1)
            if P * Q % 2 and gcd(e, ph) == 1:
                D = pow(e, -1, ph)
                alts.append([P * Q, e, D, P, Q, D % (P - 1), D % (Q - 1), pow(Q, -1, P) if gcd(P, Q) == 1 else 0])
        # an even (hence non-invertible) public exponent and 1
        for E in (1, 2, 4, 3 * 2):
            a = list(k); a[1] = E; alts.append(a)
        c = []
        for i, a in enumerate(alts):
            c += ["ki 0 priv " + pkcs1_priv(a).hex()] if True else []
            out_k.append(a)
        # one session per altered key: a refused import leaves no key to verify
        for a in alts:
            if a[0] <= 0 or a[0] % 2 == 0: continue
            out.append(Session(["ki 0 priv " + pkcs1_priv(a).hex(), "kk 0", "kx 0"], "altered key"))
        out.append(Session([imp(0, k), "kk 0", "kx 0", imp(0, k, False), "kk 0", "kx 0"], "unaltered key"))
        for E in (1, 2, e, N - 1, N, N + 1, 0, -3, 3):
            out.append(Session(["ki 0 pub " + pkcs1_pub([N, E]).hex(), "kk 0", "kx 0"], "public key"))
    return out

def fake_key(r, bits):
    """eight numbers of the given bit lengths; only the modulus has to be odd"""
    v = []
    for i, b in enumerate(bits):
        x = r.getrandbits(b) | 1 << (b - 1) if b else 0
        if r.random() < 0.2: x = (1 << b) - 1
        elif r.random() < 0.1: x = 1 << (b - 1) if b else 0
        v.append(x | 1 if i == 0 else x)
    return v

def export_sessions(r, keys):
    out = []
    for k in keys:
        n1 = len(pkcs8(k)); n2 = len(spki(k))
        c = [imp(0, k, True, r.choice(["raw", "any"])), imp(1, k, False, r.choice(["raw", "any"]))]
        for h, kind, n in ((0, "priv", n1), (0, "pub", n2), (1, "pub", n2)):
            c += ["ke %d %s -1" % (h, kind), "ke %d %s %d" % (h, kind, n), "ke %d %s %d" % (h, kind, n - 1), "ke %d %s %d" % (h, kind, n + 5), "kex %d %s 0" % (h, kind), "kex %d %s -1" % (h, kind)]
            for _ in range(3): c.append("ke %d %s %d" % (h, kind, r.choice([0, 1, 2, 4, n // 2, n - 2, r.randrange(n)])))
        c += ["ke 1 priv -1", "ke 1 priv %d" % n1, "ke 1 priv 0"]
        c += ["ke 0 priv -1 -", "ke 0 priv %d -" % n1, "ke 0 priv %d -" % (n1 - 1), "ke 1 pub %d -" % n2, "ke 0 pub %d -" % (n2 + 7), "ke 1 pub -1 -", "ke 0 pub %d -" % (n2 - 1)]
        c += ["ki 2 any " + pkcs8(k).hex(), "ke 2 priv %d" % n1, "ki 3 any " + spki(k).hex(), "ke 3 pub %d" % n2, "kb 0", "kb 3", "kx 0", "kx 1", "kx 2", "kx 3"]
        out.append(Session(c, "export"))
    return out

def export_huge(r, spans):
    """one component (or the whole) of about 2^16 bytes: the next change of the length form"""
    out = []
    for where, nbytes in spans:
        bits = [16, 17, 9, 5, 5, 5, 5, 5]
        if where >= 0: bits[where] = 8 * nbytes - r.choice([0, 0, 1])
        else:                                # the total of the private (-1) or public (-2) structure
            def size(b):
                k = fake_key(r, b); return len(pkcs8(k)) if where == -1 else len(pkcs1_pub(k))
            j = 2 if where == -1 else 1
            bits[j] = 8 * (nbytes - 60)
            bits[j] += 8 * (nbytes - size(bits))
        k = fake_key(r, bits)
        n1 = len(pkcs8(k)); n2 = len(spki(k))
        c = ["ki 0 any " + pkcs8(k).hex(), "kb 0", "ke 0 priv %d" % n1, "ke 0 priv %d" % (n1 - 1), "ke 0 pub %d" % n2, "ke 0 pub %d" % (n2 - 1), "kex 0 pub 0", "kx 0", "ki 1 priv " + pkcs1_priv(k).hex(), "ke 1 priv -1", "kx 1",
             "ki 2 any " + spki(k).hex(), "ke 2 pub -1", "ke 2 pub %d" % (n2 + 3), "kx 2", "ki 3 pub " + pkcs1_pub(k).hex(), "kb 3", "ke 3 pub %d" % n2, "kx 3"]
        out.append(Session(c, "component of %d bytes" % nbytes))
    return out

def import_huge(r, n):
    """long structures with lengths that are wrong by a little or by a multiple of 2^8 or 2^16"""
    out = []
    for _ in range(n):
        j = r.choice([1, 2, 4]); bits = [16, 17, 9, 5, 5, 5, 5, 5]; bits[j] = 8 * r.choice([65536, 65536, 65537, 65600, 66000])
        k = fake_key(r, bits); b = bytearray(r.choice([pkcs8, spki] if j == 1 else [pkcs8])(k))
        i = b.find(b"\x83\x01")
        at = [m for m in range(0, 60) if b[m] == 0x83 and b[m + 1] == 1]
        c = []
        for m in at:
            for d in ((0, 1), (0, -1), (1, -1), (2, 1), (2, -1)):
                x = bytearray(b); x[m + 3 - d[0]] = (x[m + 3 - d[0]] + d[1]) & 255; c += ["ki 0 any " + bytes(x).hex(), "kx 0"]
        if not c: c = ["ki 0 any " + bytes(b).hex(), "kx 0"]
        c = c[:6]
        cut = r.choice([1, 2, 256, 65536]); c += ["ki 0 any " + bytes(b[:-cut]).hex(), "kx 0"]
        out.append(Session([x for x in c if x != "kx 0"][:4], "long structure with wrong lengths"))
    return out

def export_short(r, keys):
    """every buffer length"""
    out = []
    for k in keys:
        n1 = len(pkcs8(k)); n2 = len(spki(k))
        for lo in range(0, n1 + 2, 40): out.append(Session([imp(0, k)] + ["ke 0 priv %d" % n for n in range(lo, min(lo + 40, n1 + 2))] + ["kx 0"], "every private buffer length"))
        for lo in range(0, n2 + 2, 40): out.append(Session([imp(0, k)] + ["ke 0 pub %d" % n for n in range(lo, min(lo + 40, n2 + 2))] + ["kx 0"], "every public buffer length"))
    return out

# ---- import
def forms(r):
    def F():
        c = r.random()
        return None if c < 0.4 else "i" if c < 0.75 else r.choice([1, 2, 3, 4])
    return F
def rich_tlv(t, body, f):
    if f in (1, 2, 3, 4):
        f = max(f, (len(body).bit_length() + 7) // 8 or 1)
    return tlv(t, body, f)
def der_int_f(v, r):
    b = twos(v)
    if r.random() < 0.25: b = (b"\0" if v >= 0 else b"\xff") * r.randint(1, 3) + b
    f = r.choice([None, None, 1, 2, 3, 4])
    return rich_tlv(2, b, f)
def loose(r, k, kind):
    """well-formed BER of a key in a random mixture of length forms"""
    F = forms(r)
    seq = lambda b: rich_tlv(0x30, b, F())
    P = lambda t, b: rich_tlv(t, b, r.choice([None, None, 1, 2, 3, 4]))
    pub = seq(der_int_f(k[0], r) + der_int_f(k[1], r))
    priv = seq(der_int_f(0, r) + b"".join(der_int_f(x, r) for x in k))
    alg = seq(P(6, OID) + r.choice([b"\x05\x00", b"\x05\x81\x00"]))
    if kind == "pub": return pub
    if kind == "priv": return priv
    if kind == "spki": return seq(alg + P(3, b"\0" + pub))
    tail = r.choice([b"", b"", rich_tlv(0xa0, seq(P(6, b"\x2a\x03")), F()), P(4, b"xyz"), P(0x0c, b"name")])
    return seq(der_int_f(0, r) + alg + P(4, priv) + tail)
def ki(h, kind, b): return "ki %d %s %s" % (h, {"pub": "pub", "priv": "priv"}.get(kind, "any"), hx(b))

def import_good(r, keys, per):
    out = []
    for k in keys:
        for _ in range(per):
            kind = r.choice(["pub", "priv", "spki", "pkcs8"])
            c = [ki(0, kind, loose(r, k, kind)), "kb 0", "ke 0 pub 4000"] + (["ke 0 priv 4000"] if kind in ("priv", "pkcs8") else ["ke 0 priv -1"]) + ["kx 0"]
            out.append(Session(c, "import " + kind))
    return out

def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        c = r.random()
        if not b: b = bytearray(r.randbytes(3))
        i = r.randrange(len(b)) if r.random() < 0.5 else r.randrange(min(len(b), 40))
        if c < 0.3: b[i] ^= 1 << r.randrange(8)
        elif c < 0.5: b[i] = r.choice([0, 0x80, 0x81, 0x82, 0x84, 0x85, 0xff, 0x7f, 0x30, 0x02, 0x04, 0x03, 0x06, 1, 2, r.randrange(256)])
        elif c < 0.6: del b[i]
        elif c < 0.7: b.insert(i, r.choice([0, 0x80, 0x30, 0x02, r.randrange(256)]))
        elif c < 0.78: b = b[:i]
        elif c < 0.84: b = b + r.randbytes(r.randint(1, 4))
        elif c < 0.9:
            j = min(len(b), i + r.randint(1, 12)); b[i:i] = b[i:j]
        elif c < 0.95:
            j = min(len(b), i + r.randint(1, 12)); del b[i:j]
        else: b[i:i] = bytes([0x30, r.choice([0, 1, 2, 0x80])])
    return bytes(b)

def import_bad(r, keys, n):
    out = []
    KINDS = ["pub", "priv", "spki", "pkcs8"]
    c = []
    def add(line, tag):
        # a session of its own: handle 0 is in use only if the import succeeds
        out.append(Session([line], tag))
    for i in range(n):
        k = r.choice(keys); kind = r.choice(KINDS)
        b = mutate(r, loose(r, k, kind) if r.random() < 0.4 else {"pub": pkcs1_pub, "priv": pkcs1_priv, "spki": spki, "pkcs8": pkcs8}[kind](k))
        add(ki(0, kind if r.random() < 0.95 else r.choice(KINDS), b), "mutated " + kind)
    return out

def import_trunc(r, keys):
    out = []
    for k in keys:
        for kind, f in (("pub", pkcs1_pub), ("priv", pkcs1_priv), ("spki", spki), ("pkcs8", pkcs8)):
            b = f(k)
            for n in range(len(b)): out.append(Session([ki(0, kind, b[:n])], "truncated " + kind))
            lb = loose(r, k, kind)
            for n in range(0, len(lb), 3): out.append(Session([ki(0, kind, lb[:n])], "truncated " + kind))
    return out

def import_lengths(r, keys):
    """every length octet of the encoding replaced by lengths that do not fit, and by other forms"""
    out = []
    for k in keys:
        for kind, f in (("pub", pkcs1_pub), ("spki", spki), ("priv", pkcs1_priv), ("pkcs8", pkcs8)):
            b = f(k)
            for i in range(min(len(b), 60)):
                for v in (0, 1, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x88, 0xff):
                    if b[i] != v: out.append(Session([ki(0, kind, b[:i] + bytes([v]) + b[i + 1:])], "octet %d of %s" % (i, kind)))
                for ins in (b"\x84\xff\xff\xff\xff", b"\x84\x7f\xff\xff\xff", b"\x84\x80\x00\x00\x00", b"\x83\x00\x00", b"\x88" + b"\0" * 7 + b"\x05", b"\x84\xff\xff\xff" + bytes([b[i]])):
                    out.append(Session([ki(0, kind, b[:i] + ins + b[i + 1:])], "octet %d of %s" % (i, kind)))
    return out

def import_shapes(r, keys):
    """structures of the wrong shape, depth, type or algorithm"""
    out = []
    def add(kind, b, tag): out.append(Session([ki(0, kind, b), "nop"][:1], tag))
    for k in keys:
        oids = [OID[:-1], OID + b"\x01", OID[:-1] + b"\x02", bytes.fromhex("2a8648ce3d0201"), OID[:-1] + b"\x05", b"", OID[1:], OID[:5]]
        for o in oids:
            add("spki", spki(k, oid=o), "other algorithm"); add("pkcs8", pkcs8(k, oid=o), "other algorithm")
        T = pkcs1_priv(k)
        for n in range(9):   # missing integers
            add("priv", tlv(0x30, der_int(0) + b"".join(der_int(x) for x in k[:n])), "missing integers")
        for n in range(2): add("pub", tlv(0x30, b"".join(der_int(x) for x in k[:n])), "missing integers")
        for j in range(8):
            parts = [der_int(x) for x in k]
            for alt in (b"\x02\x00", b"\x04\x01\x05", b"\x05\x00", b"\x30\x00", b"\x30\x03\x02\x01\x05", b"\x24\x80\x02\x01\x05\x00\x00", b"", b"\x00\x00", b"\x22\x03\x02\x01\x05"):
                p2 = list(parts); p2[j] = alt
                add("priv", tlv(0x30, der_int(0) + b"".join(p2)), "component replaced")
                if j < 2: add("pub", tlv(0x30, b"".join(p2[:2])), "component replaced")
        for d in (1, 5, 8, 9, 10, 11, 12, 15, 30, 100, 400):
            x = b""
            y = b"\x02\x01\x05"
            for _ in range(d): x = tlv(0x30, x); y = tlv(0x30, y)
            z = b"\x30\x80" * d
            for v in (x, y, z, z + b"\0\0" * d, z + b"\x02\x01\x05" + b"\0\0" * d, b"\x30" * d, b"\x30\x80\x02\x01" * d): add(r.choice(["pub", "priv", "spki"]), v, "nesting %d" % d)
            add("priv", tlv(0x30, der_int(0) + b"".join(der_int(q) for q in k) + x), "nested extra")
            add("pkcs8", pkcs8(k, extra=x), "nested extra"); add("pkcs8", pkcs8(k, extra=z + b"\0\0" * d), "nested extra")
        for b in (b"", b"\0", b"\0\0", b"\0\0\0\0", b"\x30", b"\x30\x80", b"\x30\x00", b"\x30\x80\0\0", b"\x30\x80\0", b"\x30\x84", b"\x30\x84\0\0\0", b"\x02\x01\x01", b"\x30\x82", b"\xff" * 9, b"\x80" * 9, b"\x30\x81", b"\x3f\x80\x01\0\0"):
            for kind in ("pub", "priv", "any"): add(kind, b, "tiny")
        for bits in (b"\x01", b"\x07", b"\x08", b"\xff", b""):
            add("spki", tlv(0x30, algid() + tlv(3, bits + pkcs1_pub(k))), "unused bits")
        add("spki", tlv(0x30, algid() + tlv(4, b"\0" + pkcs1_pub(k))), "octet string"); add("spki", tlv(0x30, algid() + tlv(3, b"")), "empty"); add("spki", tlv(0x30, algid() + tlv(3, b"\0")), "empty")
        add("pkcs8", tlv(0x30, der_int(0) + algid() + tlv(3, pkcs1_priv(k))), "bit string"); add("pkcs8", tlv(0x30, der_int(0) + algid() + tlv(4, b"")), "empty")
        add("pkcs8", tlv(0x30, algid() + tlv(4, pkcs1_priv(k))), "no version"); add("pkcs8", tlv(0x30, der_int(0) + tlv(4, pkcs1_priv(k))), "no algorithm")
        add("spki", tlv(0x30, tlv(3, b"\0" + pkcs1_pub(k))), "no algorithm"); add("spki", spki(k) + b"\0", "trailing"); add("pkcs8", pkcs8(k) + pkcs8(k), "trailing")
        for m in (0, 1, 2, 4, -k[0], k[0] - 1, k[0] + 1, -1):
            add("pub", pkcs1_pub([m] + list(k[1:])), "modulus"); add("priv", pkcs1_priv([m] + list(k[1:])), "modulus")
        for _ in range(25):
            n = r.randint(1, 40); add(r.choice(["pub", "priv", "any"]), r.randbytes(n), "random"); add(r.choice(["pub", "priv", "any"]), b"\x30" + r.randbytes(n), "random")
            add(r.choice(["pub", "priv", "any"]), bytes(r.choice([0x30, 0x80, 0, 2, 1, 0x30, 4]) for _ in range(n)), "random")
    return out
