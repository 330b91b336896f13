// TLC override of the operators marked (J) in BigInt.tla.
// The TLA+ definitions are the specification; this class only makes TLC evaluate
// them faster, and BigIntCheck.tla compares the two.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class BigInt {
  static final int BASE = 10000;
  static final BigInteger BB = BigInteger.valueOf(BASE);
  static final BigInteger B16 = BigInteger.TEN.pow(16);
  static final IntValue[] CACHE = new IntValue[BASE];
  static { for (int i = 0; i < BASE; i++) CACHE[i] = IntValue.gen(i); }
  static final IntValue M1 = IntValue.gen(-1);

  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    TupleValue t = (TupleValue) v.toTuple();
    return t.elems;
  }
  static boolean small(Value[] e) { return e.length <= 5; }       // |.| < 10^16
  static long toLong(Value[] e) {
    long r = 0;
    for (int i = e.length - 1; i >= 1; i--) r = r * BASE + ((IntValue) e[i]).val;
    return ((IntValue) e[0]).val < 0 ? -r : r;
  }
  public static BigInteger big(Value v) { return big(elems(v)); }
  static BigInteger big(Value[] e) {
    if (small(e)) return BigInteger.valueOf(toLong(e));
    // 4 limbs at a time
    BigInteger r = BigInteger.ZERO;
    int n = e.length - 1, top = ((n - 1) / 4) * 4;
    for (int g = top; g >= 0; g -= 4) {
      long w = 0;
      for (int k = Math.min(g + 4, n); k > g; k--) w = w * BASE + ((IntValue) e[k]).val;
      r = r.multiply(B16).add(BigInteger.valueOf(w));
    }
    return ((IntValue) e[0]).val < 0 ? r.negate() : r;
  }
  static Value fromLong(long x) {
    if (x == 0) return new TupleValue(new Value[] { CACHE[0] });
    long a = Math.abs(x); int n = 0; for (long t = a; t != 0; t /= BASE) n++;
    Value[] e = new Value[n + 1];
    e[0] = x < 0 ? M1 : CACHE[1];
    for (int i = 1; i <= n; i++) { e[i] = CACHE[(int) (a % BASE)]; a /= BASE; }
    return new TupleValue(e);
  }
  public static Value from(BigInteger x) {
    if (x.bitLength() < 63) return fromLong(x.longValue());
    java.util.ArrayList<Value> l = new java.util.ArrayList<>();
    l.add(x.signum() < 0 ? M1 : CACHE[1]);
    BigInteger a = x.abs();
    while (a.signum() != 0) {
      BigInteger[] qr = a.divideAndRemainder(B16);
      long w = qr[1].longValue(); a = qr[0];
      for (int k = 0; k < 4 && (w != 0 || a.signum() != 0); k++) { l.add(CACHE[(int) (w % BASE)]); w /= BASE; }
    }
    return new TupleValue(l.toArray(new Value[0]));
  }
  public static Value BInt(Value n) { return fromLong(((IntValue) n).val); }
  public static Value BNeg(Value a) { Value[] e = elems(a); return small(e) ? fromLong(-toLong(e)) : from(big(e).negate()); }
  public static Value BAdd(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (small(x) && small(y)) return fromLong(toLong(x) + toLong(y));
    return from(big(x).add(big(y)));
  }
  public static Value BSub(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (small(x) && small(y)) return fromLong(toLong(x) - toLong(y));
    return from(big(x).subtract(big(y)));
  }
  public static Value BMul(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (x.length <= 3 && y.length <= 3) return fromLong(toLong(x) * toLong(y));
    return from(big(x).multiply(big(y)));
  }
  public static Value BCmp(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (small(x) && small(y)) return IntValue.gen(Long.compare(toLong(x), toLong(y)));
    return IntValue.gen(big(x).compareTo(big(y)));
  }
  public static Value BQuo(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (small(x) && small(y)) return fromLong(toLong(x) / toLong(y));
    return from(big(x).divide(big(y)));
  }
  public static Value BRem(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (small(x) && small(y)) return fromLong(toLong(x) % toLong(y));
    return from(big(x).remainder(big(y)));
  }
  public static Value BMod(Value a, Value m) {
    Value[] x = elems(a), y = elems(m);
    if (small(x) && small(y)) return fromLong(Math.floorMod(toLong(x), toLong(y)));
    return from(big(x).mod(big(y)));
  }
  public static Value BGcd(Value a, Value b) {
    return from(big(a).gcd(big(b)));
  }
  public static Value BPow(Value a, Value n) { return from(big(a).pow(((IntValue) n).val)); }
  public static Value BPowMod(Value a, Value n, Value m) { return from(big(a).modPow(big(n), big(m))); }
  public static Value BModInt(Value a, Value m) {
    Value[] x = elems(a); int p = ((IntValue) m).val;
    if (small(x)) return IntValue.gen((int) Math.floorMod(toLong(x), (long) p));
    long r = 0;
    for (int i = x.length - 1; i >= 1; i--) r = (r * BASE + ((IntValue) x[i]).val) % p;
    if (((IntValue) x[0]).val < 0 && r != 0) r = p - r;
    return IntValue.gen((int) r);
  }
}
