// TLC overrides of the operators marked (J) in ModPoly.tla (see BigInt.java).
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

public class ModPoly {
  // arithmetic modulo an odd prime below 2^64 in Montgomery form, or modulo a small number directly
  static final class F {
    final long p, ni, r2, one; final boolean small; final BigInteger P;
    static final HashMap<BigInteger, F> cache = new HashMap<>();
    static synchronized F of(Value v) { BigInteger b = BigInt.big(v); return cache.computeIfAbsent(b, F::new); }
    F(BigInteger P) {
      this.P = P; p = P.longValue(); small = P.bitLength() <= 31;
      if (P.bitLength() > 64) throw new RuntimeException("ModPoly: modulus too large");
      if (small) { ni = 0; r2 = 0; one = 1 % p; }
      else {
        long x = p; for (int i = 0; i < 6; i++) x *= 2 - p * x;      // p^-1 mod 2^64
        ni = x;
        r2 = BigInteger.ONE.shiftLeft(128).mod(P).longValue();
        one = BigInteger.ONE.shiftLeft(64).mod(P).longValue();
      }
    }
    static long umulh(long a, long b) { return Math.multiplyHigh(a, b) + ((a >> 63) & b) + ((b >> 63) & a); }
    long mul(long a, long b) {
      if (small) return a * b % p;
      long hi = umulh(a, b), lo = a * b;
      long m = umulh(lo * ni, p);
      long r = hi - m;
      return Long.compareUnsigned(hi, m) < 0 ? r + p : r;
    }
    long add(long a, long b) { long s = a + b; return (Long.compareUnsigned(s, a) < 0 || Long.compareUnsigned(s, p) >= 0) ? s - p : s; }
    long sub(long a, long b) { return Long.compareUnsigned(a, b) < 0 ? a - b + p : a - b; }
    long in(BigInteger x) { long r = (x.signum() < 0 || x.compareTo(P) >= 0 ? x.mod(P) : x).longValue(); return small ? r : mul(r, r2); }
    long in(int x) { return in(BigInteger.valueOf(x)); }
    BigInteger out(long x) { if (!small) x = mul(x, 1); return x >= 0 ? BigInteger.valueOf(x) : BigInteger.valueOf(x).add(BigInteger.ONE.shiftLeft(64)); }
    long pow(long a, BigInteger e) { long r = one; for (int i = e.bitLength() - 1; i >= 0; i--) { r = mul(r, r); if (e.testBit(i)) r = mul(r, a); } return r; }
    long inv(long a) { return pow(a, P.subtract(BigInteger.TWO)); }
  }
  static long[] strip(long[] a) { int n = a.length; while (n > 0 && a[n - 1] == 0) n--; return n == a.length ? a : Arrays.copyOf(a, n); }
  static long[] get(F f, Value v) { Value[] e = BigInt.elems(v); long[] a = new long[e.length]; for (int i = 0; i < a.length; i++) a[i] = f.in(BigInt.big(e[i])); return strip(a); }
  static Value put(F f, long[] a) { a = strip(a); Value[] v = new Value[a.length]; for (int i = 0; i < v.length; i++) v[i] = BigInt.from(f.out(a[i])); return new TupleValue(v); }
  static long[] add(F f, long[] a, long[] b) { int n = Math.max(a.length, b.length); long[] c = new long[n]; for (int i = 0; i < n; i++) c[i] = f.add(i < a.length ? a[i] : 0, i < b.length ? b[i] : 0); return strip(c); }
  static long[] sub(F f, long[] a, long[] b) { int n = Math.max(a.length, b.length); long[] c = new long[n]; for (int i = 0; i < n; i++) c[i] = f.sub(i < a.length ? a[i] : 0, i < b.length ? b[i] : 0); return strip(c); }
  static long[] scale(F f, long[] a, long k) { long[] c = new long[a.length]; for (int i = 0; i < c.length; i++) c[i] = f.mul(a[i], k); return strip(c); }
  static long[] mul(F f, long[] a, long[] b) {
    if (a.length == 0 || b.length == 0) return new long[0];
    long[] c = new long[a.length + b.length - 1];
    for (int i = 0; i < a.length; i++) { long x = a[i]; if (x != 0) for (int j = 0; j < b.length; j++) c[i + j] = f.add(c[i + j], f.mul(x, b[j])); }
    return strip(c);
  }
  // returns remainder; quotient into q (may be null)
  static long[] divmod(F f, long[] a, long[] b, long[] q) {
    int n = b.length; if (n == 0) throw new RuntimeException("ModPoly: division by zero");
    long[] r = a.clone(); long li = f.inv(b[n - 1]);
    for (int i = r.length - n; i >= 0; i--) {
      long t = f.mul(r[i + n - 1], li); if (q != null) q[i] = t;
      if (t != 0) for (int j = 0; j < n; j++) r[i + j] = f.sub(r[i + j], f.mul(t, b[j]));
    }
    return strip(Arrays.copyOf(r, Math.min(r.length, n - 1)));
  }
  static long[] rem(F f, long[] a, long[] b) { return a.length < b.length ? a : divmod(f, a, b, null); }
  static long[] quo(F f, long[] a, long[] b) { if (a.length < b.length) return new long[0]; long[] q = new long[a.length - b.length + 1]; divmod(f, a, b, q); return strip(q); }
  static long[] monic(F f, long[] a) { return a.length == 0 ? a : scale(f, a, f.inv(a[a.length - 1])); }
  static long[] gcd(F f, long[] a, long[] b) { while (b.length != 0) { long[] r = rem(f, a, b); a = b; b = r; } return monic(f, a); }
  static long[] powmod(F f, long[] a, BigInteger n, long[] m) {
    long[] r = rem(f, new long[] { f.one }, m); a = rem(f, a, m);
    for (int i = n.bitLength() - 1; i >= 0; i--) { r = rem(f, mul(f, r, r), m); if (n.testBit(i)) r = rem(f, mul(f, r, a), m); }
    return r;
  }
  static int iv(Value v) { return ((IntValue) v).val; }

  static Value bi(F f, long x) { return BigInt.from(f.out(x)); }
  public static Value MpStrip(Value a) { Value[] e = BigInt.elems(a); int n = e.length; while (n > 0 && BigInt.big(e[n - 1]).signum() == 0) n--; return new TupleValue(Arrays.copyOf(e, n)); }
  public static Value MpReduce(Value s, Value p) { F f = F.of(p); return put(f, get(f, s)); }
  public static Value MpAdd(Value a, Value b, Value p) { F f = F.of(p); return put(f, add(f, get(f, a), get(f, b))); }
  public static Value MpSub(Value a, Value b, Value p) { F f = F.of(p); return put(f, sub(f, get(f, a), get(f, b))); }
  public static Value MpScale(Value a, Value c, Value p) { F f = F.of(p); return put(f, scale(f, get(f, a), f.in(BigInt.big(c)))); }
  public static Value MpMul(Value a, Value b, Value p) { F f = F.of(p); return put(f, mul(f, get(f, a), get(f, b))); }
  public static Value MpDivMod(Value a, Value b, Value p) {
    F f = F.of(p); long[] x = get(f, a), y = get(f, b);
    long[] q = new long[Math.max(0, x.length - y.length + 1)];
    long[] r = x.length < y.length ? x : divmod(f, x, y, q);
    return new TupleValue(new Value[] { put(f, q), put(f, r) });
  }
  public static Value MpMonic(Value a, Value p) { F f = F.of(p); return put(f, monic(f, get(f, a))); }
  public static Value MpGcd(Value a, Value b, Value p) { F f = F.of(p); return put(f, gcd(f, get(f, a), get(f, b))); }
  static long[] deriv(F f, long[] a) { if (a.length == 0) return a; long[] d = new long[a.length - 1]; for (int i = 0; i < d.length; i++) d[i] = f.mul(f.in(i + 1), a[i + 1]); return strip(d); }
  public static Value MpDeriv(Value a, Value p) { F f = F.of(p); return put(f, deriv(f, get(f, a))); }
  public static Value MpEval(Value a, Value x, Value p) {
    F f = F.of(p); long[] c = get(f, a); long k = f.in(BigInt.big(x)), s = 0;
    for (int i = c.length - 1; i >= 0; i--) s = f.add(c[i], f.mul(s, k));
    return bi(f, s);
  }
  public static Value MpPowMod(Value a, Value n, Value m, Value p) { F f = F.of(p); return put(f, powmod(f, get(f, a), BigInt.big(n), get(f, m))); }
  public static Value MpRes(Value x, Value y, Value p) {
    F f = F.of(p); long[] a = get(f, x), b = get(f, y); long s = f.one; boolean neg = false;
    if (a.length == 0 || b.length == 0) return bi(f, 0);
    while (b.length > 1) {
      long[] r = rem(f, a, b);
      if (r.length == 0) return bi(f, 0);
      if (((a.length - 1) & (b.length - 1) & 1) == 1) neg = !neg;
      s = f.mul(s, f.pow(b[b.length - 1], BigInteger.valueOf(a.length - r.length)));
      a = b; b = r;
    }
    s = f.mul(s, f.pow(b[0], BigInteger.valueOf(a.length - 1)));
    return bi(f, neg ? f.sub(0, s) : s);
  }
  static List<Integer> ddf(F f, long[] a) {
    ArrayList<Integer> o = new ArrayList<>(); a = monic(f, a);
    long[] x = { 0, f.one }, h = a.length > 1 ? rem(f, x, a) : x;
    for (int k = 1; a.length > 1; k++) {
      if (2 * k > a.length - 1) { while (o.size() < a.length - 2) o.add(0); o.add(1); break; }
      h = powmod(f, h, f.P, a);
      long[] g = gcd(f, sub(f, h, x), a);
      o.add((g.length - 1) / k);
      if (g.length > 1) { a = quo(f, a, g); if (a.length > 1) h = rem(f, h, a); }
    }
    return o;
  }
  public static Value MpDDF(Value a, Value p) {
    F f = F.of(p); List<Integer> l = ddf(f, get(f, a)); Value[] v = new Value[l.size()];
    for (int i = 0; i < v.length; i++) v[i] = IntValue.gen(l.get(i));
    return new TupleValue(v);
  }
  public static Value MpImage(Value fv, Value v, Value pt, Value p) {
    F f = F.of(p); int k = iv(v) - 1; Value[] x = BigInt.elems(pt); long[] c = new long[0];
    if (fv instanceof TupleValue) return put(f, c);
    FcnRcdValue g = (FcnRcdValue) fv.toFcnRcd(); Value[] dom = g.getDomainAsValues();
    long[][] pw = new long[x.length][];
    for (int i = 0; i < dom.length; i++) {
      Value[] e = BigInt.elems(dom[i]); long t = f.in(BigInt.big(g.values[i]));
      for (int j = 0; j < e.length; j++) if (j != k) {
        int d = iv(e[j]); if (d == 0) continue;
        if (pw[j] == null) pw[j] = new long[] { f.one };
        if (pw[j].length <= d) { int o = pw[j].length; pw[j] = Arrays.copyOf(pw[j], d + 1); long b = f.in(BigInt.big(x[j])); for (int q = o; q <= d; q++) pw[j][q] = f.mul(pw[j][q - 1], b); }
        t = f.mul(t, pw[j][d]);
      }
      int d = iv(e[k]); if (c.length <= d) c = Arrays.copyOf(c, d + 1);
      c[d] = f.add(c[d], t);
    }
    return put(f, c);
  }
  // determinant polynomial of shifted copies of a and b, by elimination
  public static Value MpSubres(Value av, Value bv, Value mv, Value nv, Value jv, Value p) {
    F f = F.of(p); long[] a = get(f, av), b = get(f, bv); int m = iv(mv), n = iv(nv), j = iv(jv), N = m + n - 2 * j, C = m + n - j;
    long[][] M = new long[N][C];                       // column c holds degree C-1-c
    for (int r = 0; r < N; r++) {
      boolean fa = r < n - j; int s = fa ? n - j - 1 - r : m - j - 1 - (r - (n - j)); long[] w = fa ? a : b;
      for (int k = 0; k < w.length; k++) M[r][C - 1 - k - s] = w[k];
    }
    long d = f.one; boolean neg = false;
    for (int c = 0; c < N - 1; c++) {
      int r = c; while (r < N && M[r][c] == 0) r++;
      if (r == N) return put(f, new long[0]);
      if (r != c) { long[] t = M[r]; M[r] = M[c]; M[c] = t; neg = !neg; }
      d = f.mul(d, M[c][c]); long inv = f.inv(M[c][c]);
      for (r = c + 1; r < N; r++) if (M[r][c] != 0) { long t = f.mul(M[r][c], inv); for (int k = c; k < C; k++) M[r][k] = f.sub(M[r][k], f.mul(t, M[c][k])); }
    }
    long[] o = new long[j + 1];
    for (int k = 0; k <= j; k++) { long x = f.mul(d, N == 0 ? f.one : M[N - 1][C - 1 - k]); o[k] = neg ? f.sub(0, x) : x; }
    return put(f, o);
  }
  public static Value MpZeros(Value fs, Value nv, Value qv) {
    int n = iv(nv), q = iv(qv); Value[] l = BigInt.elems(fs); BigInteger Q = BigInteger.valueOf(q);
    int[][][] ex = new int[l.length][][]; long[][] co = new long[l.length][];
    for (int i = 0; i < l.length; i++) {
      if (l[i] instanceof TupleValue && ((TupleValue) l[i]).elems.length == 0) { ex[i] = new int[0][]; co[i] = new long[0]; continue; }
      FcnRcdValue g = (FcnRcdValue) l[i].toFcnRcd(); Value[] dom = g.getDomainAsValues();
      ex[i] = new int[dom.length][n]; co[i] = new long[dom.length];
      for (int t = 0; t < dom.length; t++) { Value[] e = BigInt.elems(dom[t]); for (int k = 0; k < n; k++) ex[i][t][k] = iv(e[k]); co[i][t] = BigInt.big(g.values[t]).mod(Q).longValue(); }
    }
    ArrayList<int[]> found = new ArrayList<>();
    int[] pt = new int[n]; boolean[] set = new boolean[n];
    descend(ex, co, n, q, pt, set, 0, found);
    found.sort((a, b) -> Arrays.compare(a, b));
    ArrayList<Value> out = new ArrayList<>();
    for (int[] f : found) { Value[] v = new Value[n]; for (int k = 0; k < n; k++) v[k] = IntValue.gen(f[k]); out.add(new TupleValue(v)); }
    ValueVec vv = new ValueVec(); for (Value v : out) vv.addElement(v);
    return new SetEnumValue(vv, true);                  // enumerated in increasing order
  }
  /** depth-first over the coordinates: next a variable that occurs alone in some polynomial, if there is one */
  private static void descend(int[][][] ex, long[][] co, int n, int q, int[] pt, boolean[] set, int depth, ArrayList<int[]> found) {
    int next = -1;
    for (int i = 0; i < ex.length; i++) {
      int v = -1; boolean many = false; long cst = 0; boolean any = false;
      for (int t = 0; t < co[i].length; t++) {
        if (co[i][t] == 0) continue;
        boolean isC = true;
        for (int k = 0; k < n; k++) if (ex[i][t][k] != 0) { isC = false; if (v == -1) v = k; else if (v != k) many = true; }
        if (isC) cst += co[i][t]; any = true;
      }
      if (!any) continue;
      if (v == -1) { if (cst % q != 0) return; else continue; }
      if (!many) next = v;
    }
    if (depth == n) { found.add(pt.clone()); return; }
    if (next == -1) for (int k = 0; k < n; k++) if (!set[k]) { next = k; break; }
    if (set[next]) throw new RuntimeException("variable chosen twice");
    set[next] = true;
    int dm = 0; for (int[][] x : ex) for (int[] y : x) dm = Math.max(dm, y[next]);
    long[] pw = new long[dm + 1];
    for (int x = 0; x < q; x++) {
      pw[0] = 1; for (int k = 1; k <= dm; k++) pw[k] = pw[k - 1] * x % q;
      int[][][] e2 = new int[ex.length][][]; long[][] c2 = new long[ex.length][]; boolean ok = true;
      for (int i = 0; i < ex.length && ok; i++) {
        HashMap<Long, Integer> at = new HashMap<>(); int m = 0; int T = co[i].length;
        int[][] ee = new int[T][]; long[] cc = new long[T];
        for (int t = 0; t < T; t++) {
          if (co[i][t] == 0) continue;
          long c = co[i][t] * pw[ex[i][t][next]] % q; if (c == 0) continue;
          long key = 0; for (int k = 0; k < n; k++) key = key * 1000 + (k == next ? 0 : ex[i][t][k]);
          Integer a = at.get(key);
          if (a == null) { int[] z = ex[i][t]; if (z[next] != 0) { z = z.clone(); z[next] = 0; } at.put(key, m); ee[m] = z; cc[m++] = c; }
          else cc[a] = (cc[a] + c) % q;
        }
        e2[i] = Arrays.copyOf(ee, m); c2[i] = Arrays.copyOf(cc, m);
        boolean isC = m > 0; long s = 0;
        for (int t = 0; t < m && isC; t++) { if (c2[i][t] == 0) continue; for (int k = 0; k < n; k++) if (ee[t][k] != 0) { isC = false; break; } s += c2[i][t]; }
        if (isC && s % q != 0) ok = false;
      }
      if (!ok) continue;
      pt[next] = x;
      descend(e2, c2, n, q, pt, set, depth + 1, found);
    }
    set[next] = false;
  }
}
