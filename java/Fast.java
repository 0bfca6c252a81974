/* Evaluates the operators of spec/Fast.tla: the block permutations, the compression functions and RC4.
   The TLA+ definitions in spec/Ciphers.tla, Digests.tla and Rc4.tla are authoritative; spec/SelfTest.tla compares both. */
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class Fast extends FastTables {
    // ---- conversions
    static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
    static int num(Value v) { return ((IntValue) v).val; }
    static int[] ints(Value v) { Value[] e = el(v); int[] r = new int[e.length]; for (int i = 0; i < r.length; i++) r[i] = num(e[i]); return r; }
    static Value tup(int[] a, int n) { Value[] e = new Value[n]; for (int i = 0; i < n; i++) e[i] = IntValue.gen(a[i]); return new TupleValue(e); }
    static Value tup(int[] a) { return tup(a, a.length); }
    static String str(Value v) { return ((StringValue) v).val.toString(); }
    static Value field(Value r, String f) { return ((RecordValue) r.toRcd()).select(new StringValue(f)); }
    static Value rec(String[] n, Value[] v) {
        UniqueString[] u = new UniqueString[n.length];
        for (int i = 0; i < n.length; i++) u[i] = UniqueString.uniqueStringOf(n[i]);
        return new RecordValue(u, v, false);
    }
    static int be(int[] b, int o) { return b[o] << 24 | b[o + 1] << 16 | b[o + 2] << 8 | b[o + 3]; }
    static int le(int[] b, int o) { return b[o + 3] << 24 | b[o + 2] << 16 | b[o + 1] << 8 | b[o]; }
    static void put(int[] b, int o, int w) { b[o] = w >>> 24; b[o + 1] = w >>> 16 & 255; b[o + 2] = w >>> 8 & 255; b[o + 3] = w & 255; }
    static int rol(int x, int n) { return Integer.rotateLeft(x, n); }

    // ---- block ciphers
    static abstract class Cipher { abstract int[] enc(int[] b); abstract int[] dec(int[] b); }
    static final ConcurrentHashMap<String, Cipher> cache = new ConcurrentHashMap<>();
    static Cipher cipher(Value c, Value key) {
        int[] k = ints(key);
        StringBuilder s = new StringBuilder(str(c));
        for (int x : k) s.append((char) (x + 256));
        if (cache.size() > 4000) cache.clear();
        return cache.computeIfAbsent(s.toString(), q -> make(str(c), k));
    }
    static Cipher make(String c, int[] k) {
        switch (c) {
        case "aes": return new Aes(k);
        case "des": return new Des(k);
        case "seed": return new Seed(k);
        case "aria": return new Aria(k);
        case "blowfish": return new Bf(k);
        }
        throw new RuntimeException("Fast: cipher " + c);
    }
    public static Value FEnc(Value c, Value key, Value b) { return tup(cipher(c, key).enc(ints(b))); }
    public static Value FDec(Value c, Value key, Value b) { return tup(cipher(c, key).dec(ints(b))); }

    static int[] xor(int[] a, int[] b) { int[] r = new int[a.length]; for (int i = 0; i < r.length; i++) r[i] = a[i] ^ b[i]; return r; }

    static class Aes extends Cipher {
        final int[][] k; final int nr;
        Aes(int[] key) {
            int nk = key.length / 4; nr = nk + 6;
            int[][] w = new int[4 * (nr + 1)][];
            int rc = 1;
            for (int i = 0; i < w.length; i++) {
                if (i < nk) { w[i] = Arrays.copyOfRange(key, 4 * i, 4 * i + 4); continue; }
                int[] t = w[i - 1].clone();
                if (i % nk == 0) {
                    int x = t[0]; t[0] = AES_S[t[1]] ^ rc; t[1] = AES_S[t[2]]; t[2] = AES_S[t[3]]; t[3] = AES_S[x]; rc = XT[rc];
                } else if (nk > 6 && i % nk == 4) for (int j = 0; j < 4; j++) t[j] = AES_S[t[j]];
                w[i] = xor(w[i - nk], t);
            }
            k = new int[nr + 1][16];
            for (int i = 0; i < w.length; i++) System.arraycopy(w[i], 0, k[i / 4], 4 * (i % 4), 4);
        }
        static int mul(int a, int b) { int r = 0; while (b != 0) { if ((b & 1) != 0) r ^= a; a = XT[a]; b >>= 1; } return r; }
        static int[] mix(int[] s, int[] c) {
            int[] r = new int[16];
            for (int q = 0; q < 16; q += 4) for (int i = 0; i < 4; i++) {
                int v = 0;
                for (int j = 0; j < 4; j++) v ^= mul(s[q + j], c[(j - i + 4) % 4]);
                r[q + i] = v;
            }
            return r;
        }
        static final int[] M = { 2, 3, 1, 1 }, IM = { 14, 11, 13, 9 };
        int[] enc(int[] b) {
            int[] s = xor(b, k[0]);
            for (int r = 1; r <= nr; r++) {
                int[] t = new int[16];
                for (int i = 0; i < 16; i++) t[i] = AES_S[s[(i + 4 * (i % 4)) % 16]];
                s = xor(r < nr ? mix(t, M) : t, k[r]);
            }
            return s;
        }
        int[] dec(int[] b) {
            int[] s = xor(b, k[nr]);
            for (int r = nr - 1; r >= 0; r--) {
                int[] t = new int[16];
                for (int i = 0; i < 16; i++) t[(i + 4 * (i % 4)) % 16] = AES_SI[s[i]];
                t = xor(t, k[r]);
                s = r > 0 ? mix(t, IM) : t;
            }
            return s;
        }
    }

    static class Des extends Cipher {
        static final String SB =
            "14 4 13 1 2 15 11 8 3 10 6 12 5 9 0 7 0 15 7 4 14 2 13 1 10 6 12 11 9 5 3 8 4 1 14 8 13 6 2 11 15 12 9 7 3 10 5 0 15 12 8 2 4 9 1 7 5 11 3 14 10 0 6 13 " +
            "15 1 8 14 6 11 3 4 9 7 2 13 12 0 5 10 3 13 4 7 15 2 8 14 12 0 1 10 6 9 11 5 0 14 7 11 10 4 13 1 5 8 12 6 9 3 2 15 13 8 10 1 3 15 4 2 11 6 7 12 0 5 14 9 " +
            "10 0 9 14 6 3 15 5 1 13 12 7 11 4 2 8 13 7 0 9 3 4 6 10 2 8 5 14 12 11 15 1 13 6 4 9 8 15 3 0 11 1 2 12 5 10 14 7 1 10 13 0 6 9 8 7 4 15 14 3 11 5 2 12 " +
            "7 13 14 3 0 6 9 10 1 2 8 5 11 12 4 15 13 8 11 5 6 15 0 3 4 7 2 12 1 10 14 9 10 6 9 0 12 11 7 13 15 1 3 14 5 2 8 4 3 15 0 6 10 1 13 8 9 4 5 11 12 7 2 14 " +
            "2 12 4 1 7 10 11 6 8 5 3 15 13 0 14 9 14 11 2 12 4 7 13 1 5 0 15 10 3 9 8 6 4 2 1 11 10 13 7 8 15 9 12 5 6 3 0 14 11 8 12 7 1 14 2 13 6 15 0 9 10 4 5 3 " +
            "12 1 10 15 9 2 6 8 0 13 3 4 14 7 5 11 10 15 4 2 7 12 9 5 6 1 13 14 0 11 3 8 9 14 15 5 2 8 12 3 7 0 4 10 1 13 11 6 4 3 2 12 9 5 15 10 11 14 1 7 6 0 8 13 " +
            "4 11 2 14 15 0 8 13 3 12 9 7 5 10 6 1 13 0 11 7 4 9 1 10 14 3 5 12 2 15 8 6 1 4 11 13 12 3 7 14 10 15 6 8 0 5 9 2 6 11 13 8 1 4 10 7 9 5 0 15 14 2 3 12 " +
            "13 2 8 4 6 15 11 1 10 9 3 14 5 0 12 7 1 15 13 8 10 3 7 4 12 5 6 11 0 14 9 2 7 11 4 1 9 12 14 2 0 6 10 13 15 3 5 8 2 1 14 7 4 10 8 13 15 12 9 0 3 5 6 11";
        static final int[] S = new int[512];
        static {
            String[] p = SB.split(" ");
            for (int i = 0; i < 512; i++) S[i] = Integer.parseInt(p[i]);
            if (System.getenv("DES_DEV") != null) S[63] = 0;
        }
        static final int[] P = { 16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25 };
        static final int[] C1 = { 57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,
                                  63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4 };
        static final int[] C2 = { 14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,
                                  41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32 };
        static final int[] SH = { 1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1 };
        final long[][] pass;       // the rounds' keys of each pass, in order of use when encrypting
        static long perm(long x, int n, int[] t) { long r = 0; for (int p : t) r = r << 1 | x >>> (n - p) & 1; return r; }
        static long[] sched(int[] key, int o) {
            long k = 0; for (int i = 0; i < 8; i++) k = k << 8 | key[o + i];
            long cd = perm(k, 64, C1); long c = cd >>> 28, d = cd & 0xfffffff;
            long[] r = new long[16];
            for (int i = 0; i < 16; i++) {
                c = (c << SH[i] | c >>> (28 - SH[i])) & 0xfffffff; d = (d << SH[i] | d >>> (28 - SH[i])) & 0xfffffff;
                r[i] = perm(c << 28 | d, 56, C2);
            }
            return r;
        }
        static long[] rev(long[] a) { long[] r = new long[16]; for (int i = 0; i < 16; i++) r[i] = a[15 - i]; return r; }
        Des(int[] key) {
            int n = key.length / 8;
            long[] k1 = sched(key, 0);
            pass = n == 1 ? new long[][] { k1 } : new long[][] { k1, rev(sched(key, 8)), n == 3 ? sched(key, 16) : k1 };
        }
        static int f(int r, long k) {
            int s = 0;
            for (int g = 0; g < 8; g++) {
                int six = 0;
                for (int j = 0; j < 6; j++) { int bit = (4 * g + j - 1 + 32) % 32; six = six << 1 | r >>> (31 - bit) & 1; }
                six ^= (int) (k >>> (42 - 6 * g)) & 63;
                s = s << 4 | S[64 * g + (six >> 5 << 5 | (six & 1) << 4 | six >> 1 & 15)];
            }
            return (int) perm(s & 0xffffffffL, 32, P);
        }
        static long block(long[] ks, long b) {
            long x = 0;                      // initial permutation: even columns to the left half
            for (int i = 0; i < 64; i++) { int r = i / 8, p = 58 - 8 * (i % 8) + (r < 4 ? 2 * r : 2 * (r - 4) - 1); x = x << 1 | b >>> (64 - p) & 1; }
            int l = (int) (x >>> 32), r = (int) x;
            for (long k : ks) { int t = l ^ f(r, k); l = r; r = t; }
            x = (long) r << 32 | l & 0xffffffffL;
            long y = 0;
            for (int i = 0; i < 64; i++) { int q = i / 8, p = 58 - 8 * (i % 8) + (q < 4 ? 2 * q : 2 * (q - 4) - 1); y |= (x >>> (63 - i) & 1) << (64 - p); }
            return y;
        }
        static long get(int[] b) { long x = 0; for (int v : b) x = x << 8 | v; return x; }
        static int[] put(long x) { int[] r = new int[8]; for (int i = 0; i < 8; i++) r[i] = (int) (x >>> (56 - 8 * i)) & 255; return r; }
        int[] enc(int[] b) { long x = get(b); for (long[] p : pass) x = block(p, x); return put(x); }
        int[] dec(int[] b) { long x = get(b); for (int i = pass.length - 1; i >= 0; i--) x = block(rev(pass[i]), x); return put(x); }
    }

    static class Seed extends Cipher {
        final int[][] k = new int[16][2];
        static int g(int x) {
            int y0 = SEED_S1[x & 255], y1 = SEED_S2[x >> 8 & 255], y2 = SEED_S1[x >> 16 & 255], y3 = SEED_S2[x >>> 24];
            int z0 = y0 & 0xfc ^ y1 & 0xf3 ^ y2 & 0xcf ^ y3 & 0x3f, z1 = y0 & 0xf3 ^ y1 & 0xcf ^ y2 & 0x3f ^ y3 & 0xfc;
            int z2 = y0 & 0xcf ^ y1 & 0x3f ^ y2 & 0xfc ^ y3 & 0xf3, z3 = y0 & 0x3f ^ y1 & 0xfc ^ y2 & 0xf3 ^ y3 & 0xcf;
            return z3 << 24 | z2 << 16 | z1 << 8 | z0;
        }
        Seed(int[] key) {
            int a = be(key, 0), b = be(key, 4), c = be(key, 8), d = be(key, 12);
            for (int i = 0; i < 16; i++) {
                k[i][0] = g(a + c - SEED_KC[i]); k[i][1] = g(b - d + SEED_KC[i]);
                if (i % 2 == 0) { int t = a; a = a >>> 8 | b << 24; b = b >>> 8 | t << 24; }
                else { int t = c; c = c << 8 | d >>> 24; d = d << 8 | t >>> 24; }
            }
        }
        int[] run(int[] b, boolean dec) {
            int l0 = be(b, 0), l1 = be(b, 4), r0 = be(b, 8), r1 = be(b, 12);
            for (int i = 0; i < 16; i++) {
                int[] q = k[dec ? 15 - i : i];
                int c = r0 ^ q[0], d = r1 ^ q[1];
                int t = g(c ^ d), u = g(t + c), v = g(u + t);
                int n0 = l0 ^ (v + u), n1 = l1 ^ v;
                l0 = r0; l1 = r1; r0 = n0; r1 = n1;
            }
            int[] o = new int[16];
            put(o, 0, r0); put(o, 4, r1); put(o, 8, l0); put(o, 12, l1);
            return o;
        }
        int[] enc(int[] b) { return run(b, false); }
        int[] dec(int[] b) { return run(b, true); }
    }

    static class Aria extends Cipher {
        static final int[][] A = { {3,4,6,8,9,13,14}, {2,5,7,8,9,12,15}, {1,4,6,10,11,12,15}, {0,5,7,10,11,13,14}, {0,2,5,8,11,14,15}, {1,3,4,9,10,14,15},
            {0,2,7,9,10,12,13}, {1,3,6,8,11,12,13}, {0,1,4,7,10,13,15}, {0,1,5,6,11,12,14}, {2,3,5,6,8,13,15}, {2,3,4,7,9,12,14}, {1,2,6,7,9,11,12}, {0,3,6,7,8,10,13}, {0,3,4,5,9,11,14}, {1,2,4,5,8,10,15} };
        static final int[][] SB = { AES_S, ARIA_S2, AES_SI, ARIA_S2I };
        static int[] a(int[] x) { int[] r = new int[16]; for (int i = 0; i < 16; i++) for (int j : A[i]) r[i] ^= x[j]; return r; }
        static int[] sl(int[] x, int o) { int[] r = new int[16]; for (int i = 0; i < 16; i++) r[i] = SB[(i + o) % 4][x[i]]; return r; }
        static int[] fo(int[] d, int[] k) { return a(sl(xor(d, k), 0)); }
        static int[] fe(int[] d, int[] k) { return a(sl(xor(d, k), 2)); }
        static int[] ror(int[] x, int n) {
            int[] r = new int[16]; int q = n / 8, s = n % 8;
            for (int i = 0; i < 16; i++) r[i] = (x[(i - q + 16) % 16] >> s | x[(i - q + 15) % 16] << (8 - s)) & 255;
            return r;
        }
        final int[][] e, d;
        Aria(int[] key) {
            int n = key.length, o = n == 16 ? 0 : n == 24 ? 1 : 2;
            int[] kr = new int[16];
            System.arraycopy(key, 16, kr, 0, n - 16);
            int[] w0 = Arrays.copyOf(key, 16), w1 = xor(fo(w0, ARIA_C[o % 3]), kr), w2 = xor(fe(w1, ARIA_C[(o + 1) % 3]), w0), w3 = xor(fo(w2, ARIA_C[(o + 2) % 3]), w1);
            int[][] w = { w0, w1, w2, w3 };
            int[] rot = { 19, 31, 67, 97, 109 };
            int nr = (n + 32) / 4;
            e = new int[nr + 1][]; d = new int[nr + 1][];
            for (int i = 0; i <= nr; i++) e[i] = xor(w[i % 4], ror(w[(i + 1) % 4], rot[i / 4]));
            for (int i = 0; i <= nr; i++) d[i] = i == 0 || i == nr ? e[nr - i] : a(e[nr - i]);
        }
        static int[] run(int[] b, int[][] k) {
            int n = k.length - 1;
            int[] s = b;
            for (int i = 0; i < n - 1; i++) s = i % 2 == 0 ? fo(s, k[i]) : fe(s, k[i]);
            return xor(sl(xor(s, k[n - 1]), 2), k[n]);
        }
        int[] enc(int[] b) { return run(b, e); }
        int[] dec(int[] b) { return run(b, d); }
    }

    static class Bf extends Cipher {
        final int[] p = BF_P.clone();
        final int[][] s = { BF_S0.clone(), BF_S1.clone(), BF_S2.clone(), BF_S3.clone() };
        int f(int x) { return (s[0][x >>> 24] + s[1][x >> 16 & 255] ^ s[2][x >> 8 & 255]) + s[3][x & 255]; }
        long crypt(int l, int r, boolean dec) {
            for (int i = 0; i < 16; i++) { int x = l ^ p[dec ? 17 - i : i]; l = r ^ f(x); r = x; }
            return (long) (r ^ p[dec ? 0 : 17]) << 32 | (l ^ p[dec ? 1 : 16]) & 0xffffffffL;
        }
        Bf(int[] key) {
            int n = key.length, at = 0;
            for (int i = 0; i < 18; i++) { int w = 0; for (int j = 0; j < 4; j++) { w = w << 8 | key[at % n]; at++; } p[i] ^= w; }
            long x = 0;
            for (int i = 0; i < 18; i += 2) { x = crypt((int) (x >>> 32), (int) x, false); p[i] = (int) (x >>> 32); p[i + 1] = (int) x; }
            for (int t = 0; t < 4; t++) for (int i = 0; i < 256; i += 2) { x = crypt((int) (x >>> 32), (int) x, false); s[t][i] = (int) (x >>> 32); s[t][i + 1] = (int) x; }
        }
        int[] run(int[] b, boolean dec) { long x = crypt(be(b, 0), be(b, 4), dec); int[] o = new int[8]; put(o, 0, (int) (x >>> 32)); put(o, 4, (int) x); return o; }
        int[] enc(int[] b) { return run(b, false); }
        int[] dec(int[] b) { return run(b, true); }
    }

    // ---- digests
    static final int[] MD4_K2 = { 0,4,8,12,1,5,9,13,2,6,10,14,3,7,11,15 }, MD4_K3 = { 0,8,4,12,2,10,6,14,1,9,5,13,3,11,7,15 };
    static final int[][] MD4_S = { {3,7,11,19}, {3,5,9,13}, {3,9,11,15} }, MD5_S = { {7,12,17,22}, {5,9,14,20}, {4,11,16,23}, {6,10,15,21} };
    static int[] wordsLE(int[] m, int o) { int[] w = new int[16]; for (int i = 0; i < 16; i++) w[i] = le(m, o + 4 * i); return w; }
    static int[] wordsBE(int[] m, int o, int n) { int[] w = new int[n]; for (int i = 0; i < 16; i++) w[i] = be(m, o + 4 * i); return w; }
    static void add(int[] h, int... v) { for (int i = 0; i < h.length; i++) h[i] += v[i]; }
    static void md4(int[] h, int[] m, int o) {
        int[] w = wordsLE(m, o); int a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 48; i++) {
            int r = i / 16, j = i % 16;
            int f = r == 0 ? (b & c | ~b & d) + w[j] : r == 1 ? (b & c | b & d | c & d) + SQ_K[1] + w[MD4_K2[j]] : (b ^ c ^ d) + SQ_K[2] + w[MD4_K3[j]];
            int v = rol(a + f, MD4_S[r][j % 4]);
            a = d; d = c; c = b; b = v;
        }
        add(h, a, b, c, d);
    }
    static void md5(int[] h, int[] m, int o) {
        int[] w = wordsLE(m, o); int a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 64; i++) {
            int r = i / 16, f, k;
            switch (r) {
            case 0: f = b & c | ~b & d; k = i % 16; break;
            case 1: f = b & d | c & ~d; k = (5 * i + 1) % 16; break;
            case 2: f = b ^ c ^ d; k = (3 * i + 5) % 16; break;
            default: f = c ^ (b | ~d); k = 7 * i % 16;
            }
            int v = b + rol(a + f + w[k] + MD5_T[i], MD5_S[r][i % 4]);
            a = d; d = c; c = b; b = v;
        }
        add(h, a, b, c, d);
    }
    static void sha1(int[] h, int[] m, int o) {
        int[] w = wordsBE(m, o, 80); int a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        for (int i = 0; i < 80; i++) {
            int r = i / 20, f = r == 0 ? b & c | ~b & d : r == 2 ? b & c | b & d | c & d : b ^ c ^ d;
            int t = rol(a, 5) + f + e + SQ_K[r + 1] + w[i];
            e = d; d = c; c = rol(b, 30); b = a; a = t;
        }
        add(h, a, b, c, d, e);
    }
    static final int[][] HAS_X = { {0,1,2,3, 4,5,6,7, 8,9,10,11, 12,13,14,15}, {3,6,9,12, 15,2,5,8, 11,14,1,4, 7,10,13,0}, {12,5,14,7, 0,9,2,11, 4,13,6,15, 8,1,10,3}, {7,2,13,8, 3,14,9,4, 15,10,5,0, 11,6,1,12} };
    static final int[] HAS_S1 = { 5,11,7,15,6,13,8,14,7,12,9,11,8,15,6,12,9,14,5,13 }, HAS_S2 = { 10,17,25,30 };
    static void has160(int[] h, int[] m, int o) {
        int[] x = wordsLE(m, o); int a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int r = 0; r < 4; r++) {
            int[] q = HAS_X[r], y = new int[4];
            for (int k = 0; k < 4; k++) y[k] = x[q[4 * k]] ^ x[q[4 * k + 1]] ^ x[q[4 * k + 2]] ^ x[q[4 * k + 3]];
            // step 0 of each group of five uses a derived word: y[2], y[3], y[0], y[1]
            for (int j = 0; j < 20; j++) {
                int w = j % 5 == 0 ? y[(j / 5 + 2) % 4] : x[q[4 * (j / 5) + j % 5 - 1]];
                int f = r == 0 ? b & c | ~b & d : r == 2 ? c ^ (b | ~d) : b ^ c ^ d;
                int t = rol(a, HAS_S1[j]) + f + e + w + (r == 0 ? 0 : SQ_K[r]);
                e = d; d = c; c = rol(b, HAS_S2[r]); b = a; a = t;
            }
        }
        add(h, a, b, c, d, e);
    }
    static int ror(int x, int n) { return Integer.rotateRight(x, n); }
    static long ror(long x, int n) { return Long.rotateRight(x, n); }
    static void sha256(int[] h, int[] m, int o) {
        int[] w = wordsBE(m, o, 64);
        for (int i = 16; i < 64; i++) {
            int p = w[i - 2], q = w[i - 15];
            w[i] = (ror(p, 17) ^ ror(p, 19) ^ p >>> 10) + w[i - 7] + (ror(q, 7) ^ ror(q, 18) ^ q >>> 3) + w[i - 16];
        }
        int[] s = h.clone();
        for (int i = 0; i < 64; i++) {
            int t1 = s[7] + (ror(s[4], 6) ^ ror(s[4], 11) ^ ror(s[4], 25)) + (s[4] & s[5] ^ ~s[4] & s[6]) + SHA256_K[i] + w[i];
            int t2 = (ror(s[0], 2) ^ ror(s[0], 13) ^ ror(s[0], 22)) + (s[0] & s[1] ^ s[0] & s[2] ^ s[1] & s[2]);
            for (int j = 7; j > 0; j--) s[j] = s[j - 1];
            s[4] += t1; s[0] = t1 + t2;
        }
        add(h, s);
    }
    static void sha512(long[] h, int[] m, int o) {
        long[] w = new long[80];
        for (int i = 0; i < 16; i++) w[i] = (long) be(m, o + 8 * i) << 32 | be(m, o + 8 * i + 4) & 0xffffffffL;
        for (int i = 16; i < 80; i++) {
            long p = w[i - 2], q = w[i - 15];
            w[i] = (ror(p, 19) ^ ror(p, 61) ^ p >>> 6) + w[i - 7] + (ror(q, 1) ^ ror(q, 8) ^ q >>> 7) + w[i - 16];
        }
        long[] s = h.clone();
        for (int i = 0; i < 80; i++) {
            long t1 = s[7] + (ror(s[4], 14) ^ ror(s[4], 18) ^ ror(s[4], 41)) + (s[4] & s[5] ^ ~s[4] & s[6]) + SHA512_K[i] + w[i];
            long t2 = (ror(s[0], 28) ^ ror(s[0], 34) ^ ror(s[0], 39)) + (s[0] & s[1] ^ s[0] & s[2] ^ s[1] & s[2]);
            for (int j = 7; j > 0; j--) s[j] = s[j - 1];
            s[4] += t1; s[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) h[i] += s[i];
    }
    static void md2(int[] x, int[] c, int[] m, int o) {
        int[] t = new int[48];
        for (int i = 0; i < 16; i++) { t[i] = x[i]; t[16 + i] = m[o + i]; t[32 + i] = x[i] ^ m[o + i]; }
        int v = 0;
        for (int j = 0; j < 18; j++) {
            for (int k = 0; k < 48; k++) v = t[k] ^= MD2_S[v];
            v = (v + j) & 255;
        }
        System.arraycopy(t, 0, x, 0, 16);
        v = c[15];
        for (int i = 0; i < 16; i++) v = c[i] ^= MD2_S[m[o + i] ^ v];
    }
    static final String[] XC = { "x", "c" };
    public static Value FCompressAll(Value algv, Value h, Value bytes) {
        String alg = str(algv);
        int[] m = ints(bytes);
        if (m.length == 0) return h;
        if (alg.equals("md2")) {
            int[] x = ints(field(h, "x")), c = ints(field(h, "c"));
            for (int o = 0; o < m.length; o += 16) md2(x, c, m, o);
            return rec(XC, new Value[] { tup(x), tup(c) });
        }
        Value[] w = el(h);
        if (alg.equals("sha384") || alg.startsWith("sha512")) {
            long[] s = new long[8];
            for (int i = 0; i < 8; i++) { int[] q = ints(w[i]); s[i] = (long) q[0] << 48 | (long) q[1] << 32 | (long) q[2] << 16 | q[3]; }
            for (int o = 0; o < m.length; o += 128) sha512(s, m, o);
            Value[] r = new Value[8];
            for (int i = 0; i < 8; i++) r[i] = tup(new int[] { (int) (s[i] >>> 48), (int) (s[i] >>> 32) & 65535, (int) (s[i] >>> 16) & 65535, (int) s[i] & 65535 });
            return new TupleValue(r);
        }
        int[] s = new int[w.length];
        for (int i = 0; i < s.length; i++) { int[] q = ints(w[i]); s[i] = q[0] << 16 | q[1]; }
        for (int o = 0; o < m.length; o += 64)
            switch (alg) {
            case "md4": md4(s, m, o); break;
            case "md5": md5(s, m, o); break;
            case "sha1": sha1(s, m, o); break;
            case "has160": has160(s, m, o); break;
            case "sha224": case "sha256": sha256(s, m, o); break;
            default: throw new RuntimeException("Fast: digest " + alg);
            }
        Value[] r = new Value[s.length];
        for (int i = 0; i < r.length; i++) r[i] = tup(new int[] { s[i] >>> 16, s[i] & 65535 });
        return new TupleValue(r);
    }

    // ---- the generator's hash chain: a digest state that absorbs octets, and its value
    static class Dig implements Cloneable {
        String alg; int[] s; long[] l; int[] buf; int k; long n; boolean wide;
        Dig(Value x) {
            alg = str(field(x, "alg")); wide = alg.equals("sha512");
            Value[] w = el(field(x, "h"));
            if (wide) { l = new long[8]; for (int i = 0; i < 8; i++) { int[] q = ints(w[i]); l[i] = (long) q[0] << 48 | (long) q[1] << 32 | (long) q[2] << 16 | q[3]; } }
            else { s = new int[w.length]; for (int i = 0; i < s.length; i++) { int[] q = ints(w[i]); s[i] = q[0] << 16 | q[1]; } }
            buf = new int[wide ? 128 : 64];
            int[] b = ints(field(x, "buf")); k = b.length; System.arraycopy(b, 0, buf, 0, k);
            int[] q = ints(field(x, "n")); n = ((long) q[0] << 24) + q[1];
        }
        void block() {
            switch (alg) {
            case "md5": md5(s, buf, 0); break;
            case "sha1": sha1(s, buf, 0); break;
            case "sha256": sha256(s, buf, 0); break;
            case "sha512": sha512(l, buf, 0); break;
            default: throw new RuntimeException("Fast: generator digest " + alg);
            }
            k = 0;
        }
        void octet(int b) { buf[k++] = b; if (k == buf.length) block(); }
        void add(int b) { n++; octet(b); }
        int[] value() {
            Dig d = new Dig(this);
            d.octet(128);
            int lw = wide ? 16 : 8;
            while (d.k != buf.length - lw) d.octet(0);
            for (int i = 0; i < lw; i++) { int sh = alg.equals("md5") ? i : lw - 1 - i; d.octet(sh >= 8 ? 0 : (int) (n << 3 >>> 8 * sh) & 255); }
            int[] r = new int[wide ? 64 : 4 * s.length];
            for (int i = 0; i < r.length; i++)
                r[i] = wide ? (int) (d.l[i / 8] >>> 56 - 8 * (i % 8)) & 255 : d.s[i / 4] >>> (alg.equals("md5") ? 8 * (i % 4) : 24 - 8 * (i % 4)) & 255;
            return r;
        }
        Dig(Dig o) { alg = o.alg; wide = o.wide; s = s(o.s); l = o.l == null ? null : o.l.clone(); buf = o.buf.clone(); k = o.k; n = o.n; }
        static int[] s(int[] x) { return x == null ? null : x.clone(); }
        Value back() {
            Value[] r = new Value[wide ? 8 : s.length];
            for (int i = 0; i < r.length; i++) r[i] = wide ? tup(new int[] { (int) (l[i] >>> 48), (int) (l[i] >>> 32) & 65535, (int) (l[i] >>> 16) & 65535, (int) l[i] & 65535 }) : tup(new int[] { s[i] >>> 16, s[i] & 65535 });
            return rec(new String[] { "alg", "h", "buf", "n" }, new Value[] { new StringValue(alg), new TupleValue(r), tup(buf, k), tup(new int[] { (int) (n >> 24), (int) n & 0xffffff }) });
        }
    }
    public static Value FPrngSkip(Value g, Value nv) {
        int n = num(nv), off = num(field(g, "off")), cnt = num(field(g, "cnt"));
        int[] blk = ints(field(g, "blk"));
        Dig d = new Dig(field(g, "x"));
        while (n > 0) {
            if (off == blk.length) {
                for (int b : blk) d.add(b);
                for (int i = 24; i >= 0; i -= 8) d.add(cnt >>> i & 255);
                blk = d.value(); off = 0; cnt++;
            }
            int k = Math.min(n, blk.length - off); off += k; n -= k;
        }
        return rec(new String[] { "x", "blk", "off", "cnt" }, new Value[] { d.back(), tup(blk), IntValue.gen(off), IntValue.gen(cnt) });
    }

    // ---- RC4
    public static Value FRc4Crypt(Value x, Value in) {
        int[] p = ints(field(x, "p")), b = ints(in);
        int i = num(field(x, "i")), j = num(field(x, "j"));
        for (int k = 0; k < b.length; k++) {
            i = i + 1 & 255; j = j + p[i] & 255;
            int t = p[i]; p[i] = p[j]; p[j] = t;
            b[k] ^= p[p[i] + p[j] & 255];
        }
        Value nx = rec(new String[] { "p", "i", "j" }, new Value[] { tup(p), IntValue.gen(i), IntValue.gen(j) });
        return rec(new String[] { "x", "out" }, new Value[] { nx, tup(b) });
    }
}
