/* Evaluates the operators of spec/BigInt.tla with java.math.BigInteger.
   The TLA+ definitions in spec/BigIntDef.tla are authoritative; spec/SelfTest.tla compares both. */
import java.math.BigInteger;
import tlc2.value.impl.*;

public class BigInt {
    static BigInteger get(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("BigInt: not a sequence: " + v);
        Value[] d = ((TupleValue) t).elems;
        int n = d.length;
        byte[] b = new byte[(n * 12) / 8 + 2];
        for (int i = 0; i < n; i++) {
            int x = ((IntValue) d[i]).val;
            int bit = i * 12;
            int at = b.length - 1 - bit / 8;
            if (bit % 8 == 0) { b[at] |= (byte) x; b[at - 1] |= (byte) (x >> 8); }
            else { b[at] |= (byte) (x << 4); b[at - 1] |= (byte) (x >> 4); }
        }
        return new BigInteger(1, b);
    }
    static Value put(BigInteger x) {
        int n = (x.bitLength() + 11) / 12;
        byte[] b = x.toByteArray();
        Value[] d = new Value[n];
        for (int i = 0; i < n; i++) {
            int bit = i * 12, at = b.length - 1 - bit / 8;
            int lo = at >= 0 ? b[at] & 255 : 0, hi = at >= 1 ? b[at - 1] & 255 : 0;
            int w = (hi << 8 | lo);
            d[i] = IntValue.gen(bit % 8 == 0 ? w & 4095 : w >> 4 & 4095);
        }
        return new TupleValue(d);
    }
    public static Value NNorm(Value a) { return put(get(a)); }
    public static Value NNat(Value k) { return put(BigInteger.valueOf(((IntValue) k).val)); }
    public static Value NCmp(Value a, Value b) { return IntValue.gen(get(a).compareTo(get(b))); }
    public static Value NAdd(Value a, Value b) { return put(get(a).add(get(b))); }
    public static Value NSub(Value a, Value b) {
        BigInteger r = get(a).subtract(get(b));
        if (r.signum() < 0) throw new RuntimeException("NSub: negative");
        return put(r);
    }
    public static Value NMul(Value a, Value b) { return put(get(a).multiply(get(b))); }
    public static Value NDivMod(Value a, Value b) {
        BigInteger[] r = get(a).divideAndRemainder(get(b));
        return new TupleValue(new Value[] { put(r[0]), put(r[1]) });
    }
    public static Value NBitLen(Value a) { return IntValue.gen(get(a).bitLength()); }
    public static Value NPow2(Value k) { return put(BigInteger.ONE.shiftLeft(((IntValue) k).val)); }
    public static Value NPowMod(Value x, Value e, Value m) { return put(get(x).modPow(get(e), get(m))); }
    public static Value NGcd(Value a, Value b) { return put(get(a).gcd(get(b))); }
    public static Value NFromBytes(Value s) {
        Value[] d = ((TupleValue) s.toTuple()).elems;
        byte[] b = new byte[d.length + 1];
        for (int i = 0; i < d.length; i++) b[i + 1] = (byte) ((IntValue) d[i]).val;
        return put(new BigInteger(1, b));
    }
    public static Value NToBytes(Value a) {
        BigInteger x = get(a);
        byte[] b = x.toByteArray();
        int n = (x.bitLength() + 7) / 8;
        Value[] d = new Value[n];
        for (int i = 0; i < n; i++) d[i] = IntValue.gen(b[b.length - n + i] & 255);
        return new TupleValue(d);
    }
}
