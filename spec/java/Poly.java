// TLC overrides of the operators marked (J) in Poly.tla (see BigInt.java).
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

public class Poly {
  static final class C {                     // coefficient: integer, residue, or fraction
    final BigInteger n, d;
    C(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }
  static final class Ring {
    final char k; final BigInteger p;
    Ring(Value v) {
      RecordValue r = (RecordValue) v.toRcd();
      k = ((StringValue) r.select(new StringValue("k"))).val.toString().charAt(0);
      p = k == 'P' ? BigInt.big((Value) r.select(new StringValue("p"))) : null;
    }
    C get(Value v) {
      if (k == 'Q') { Value[] e = BigInt.elems(v); return new C(BigInt.big(e[0]), BigInt.big(e[1])); }
      return new C(BigInt.big(v), BigInteger.ONE);
    }
    Value put(C c) {
      if (k == 'Q') return new TupleValue(new Value[] { BigInt.from(c.n), BigInt.from(c.d) });
      return BigInt.from(c.n);
    }
    C mk(BigInteger n, BigInteger d) {       // canonical fraction
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (n.signum() == 0) return new C(BigInteger.ZERO, BigInteger.ONE);
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      return new C(n, d);
    }
    boolean zero(C a) { return a.n.signum() == 0; }
    C add(C a, C b) {
      if (k == 'Z') return new C(a.n.add(b.n), BigInteger.ONE);
      if (k == 'P') return new C(a.n.add(b.n).mod(p), BigInteger.ONE);
      return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    C mul(C a, C b) {
      if (k == 'Z') return new C(a.n.multiply(b.n), BigInteger.ONE);
      if (k == 'P') return new C(a.n.multiply(b.n).mod(p), BigInteger.ONE);
      return mk(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    C pow(C a, int e) {
      if (k == 'P') return new C(a.n.modPow(BigInteger.valueOf(e), p), BigInteger.ONE);
      return new C(a.n.pow(e), a.d.pow(e));
    }
    boolean divides(C b, C a) { return k != 'Z' || a.n.mod(b.n.abs()).signum() == 0; }
    C div(C a, C b) {
      if (k == 'Z') return new C(a.n.divide(b.n), BigInteger.ONE);
      if (k == 'P') return new C(a.n.multiply(b.n.modPow(p.subtract(BigInteger.TWO), p)).mod(p), BigInteger.ONE);
      return mk(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    C neg(C a) { return k == 'P' ? new C(a.n.negate().mod(p), BigInteger.ONE) : new C(a.n.negate(), a.d); }
    C one() { return new C(k == 'P' ? BigInteger.ONE.mod(p) : BigInteger.ONE, BigInteger.ONE); }
  }
  static final class E implements Comparable<E> {   // exponent tuple, lexicographic
    final int[] e; final int h;
    E(int[] e) { this.e = e; h = Arrays.hashCode(e); }
    public int hashCode() { return h; }
    public boolean equals(Object o) { return Arrays.equals(e, ((E) o).e); }
    public int compareTo(E o) { return Arrays.compare(e, o.e); }
  }
  static E exps(Value v) {
    Value[] x = BigInt.elems(v); int[] r = new int[x.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) x[i]).val;
    return new E(r);
  }
  static Value exps(E m) {
    Value[] r = new Value[m.e.length];
    for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(m.e[i]);
    return new TupleValue(r);
  }
  static TreeMap<E, C> read(Ring R, Value v) {
    TreeMap<E, C> t = new TreeMap<>();
    if (v instanceof TupleValue) {
      if (((TupleValue) v).elems.length != 0) throw new RuntimeException("not a polynomial");
      return t;
    }
    FcnRcdValue f = (FcnRcdValue) v.toFcnRcd();
    Value[] dom = f.getDomainAsValues(), val = f.values;
    for (int i = 0; i < dom.length; i++) t.put(exps(dom[i]), R.get(val[i]));
    return t;
  }
  static Value write(Ring R, Map<E, C> t) {
    int n = 0; for (C c : t.values()) if (!R.zero(c)) n++;
    if (n == 0) return new TupleValue(new Value[0]);
    Value[] d = new Value[n], v = new Value[n]; int i = 0;
    for (Map.Entry<E, C> x : t.entrySet()) if (!R.zero(x.getValue())) { d[i] = exps(x.getKey()); v[i++] = R.put(x.getValue()); }
    return new FcnRcdValue(d, v, false);
  }
  static void acc(Ring R, Map<E, C> t, E m, C c) {
    C o = t.get(m); t.put(m, o == null ? c : R.add(o, c));
  }
  public static Value PFromTerms(Value r, Value ts) {
    Ring R = new Ring(r); TreeMap<E, C> t = new TreeMap<>();
    for (Value x : BigInt.elems(ts)) { Value[] p = BigInt.elems(x); acc(R, t, exps(p[0]), R.get(p[1])); }
    return write(R, t);
  }
  public static Value PVal(Value ts) {
    LinkedHashMap<E, Value> t = new LinkedHashMap<>();
    for (Value x : BigInt.elems(ts)) { Value[] p = BigInt.elems(x); t.putIfAbsent(exps(p[0]), p[1]); }
    if (t.isEmpty()) return new TupleValue(new Value[0]);
    Value[] d = new Value[t.size()], v = new Value[t.size()]; int i = 0;
    for (Map.Entry<E, Value> e : t.entrySet()) { d[i] = exps(e.getKey()); v[i++] = e.getValue(); }
    return new FcnRcdValue(d, v, false);
  }
  public static Value PAdd(Value r, Value p, Value q) {
    Ring R = new Ring(r); TreeMap<E, C> t = read(R, p);
    for (Map.Entry<E, C> x : read(R, q).entrySet()) acc(R, t, x.getKey(), x.getValue());
    return write(R, t);
  }
  public static Value PScale(Value r, Value p, Value c) {
    Ring R = new Ring(r); TreeMap<E, C> t = read(R, p); C k = R.get(c);
    for (Map.Entry<E, C> x : t.entrySet()) x.setValue(R.mul(x.getValue(), k));
    return write(R, t);
  }
  static E plus(E a, E b) { int[] s = new int[a.e.length]; for (int i = 0; i < s.length; i++) s[i] = a.e[i] + b.e[i]; return new E(s); }
  static Map<E, C> mul(Ring R, Map<E, C> a, Map<E, C> b) {
    HashMap<E, C> t = new HashMap<>();
    for (Map.Entry<E, C> x : a.entrySet()) for (Map.Entry<E, C> y : b.entrySet())
      acc(R, t, plus(x.getKey(), y.getKey()), R.mul(x.getValue(), y.getValue()));
    t.values().removeIf(c -> R.zero(c));
    return t;
  }
  public static Value PMul(Value r, Value p, Value q) {
    Ring R = new Ring(r);
    return write(R, mul(R, read(R, p), read(R, q)));
  }
  public static Value PPow(Value r, Value nv, Value p, Value n) {
    Ring R = new Ring(r); Map<E, C> b = read(R, p), o = new HashMap<>();
    o.put(new E(new int[((IntValue) nv).val]), R.one());
    for (int e = ((IntValue) n).val; e != 0; e >>= 1) { if ((e & 1) != 0) o = mul(R, o, b); if (e > 1) b = mul(R, b, b); }
    return write(R, o);
  }
  public static Value PSubst(Value r, Value p, Value v, Value c) {
    Ring R = new Ring(r); C k = R.get(c); int i = ((IntValue) v).val - 1; TreeMap<E, C> t = new TreeMap<>();
    HashMap<Integer, C> pw = new HashMap<>();
    for (Map.Entry<E, C> x : read(R, p).entrySet()) {
      int[] e = x.getKey().e.clone(); int d = e[i]; e[i] = 0;
      acc(R, t, new E(e), R.mul(x.getValue(), pw.computeIfAbsent(d, q -> R.pow(k, q))));
    }
    return write(R, t);
  }
  public static Value PDivExact(Value r, Value nv, Value fv, Value gv) {
    Ring R = new Ring(r); TreeMap<E, C> f = read(R, fv), g = read(R, gv), q = new TreeMap<>();
    if (g.isEmpty()) throw new RuntimeException("PDivExact by zero");
    E lm = g.lastKey(); C lc = g.get(lm);
    Value no = new TupleValue(new Value[] { BoolValue.ValFalse, new TupleValue(new Value[0]) });
    while (!f.isEmpty()) {
      E m = f.lastKey(); C c = f.get(m); int[] d = new int[m.e.length];
      for (int i = 0; i < d.length; i++) { d[i] = m.e[i] - lm.e[i]; if (d[i] < 0) return no; }
      if (!R.divides(lc, c)) return no;
      E t = new E(d); C k = R.div(c, lc), nk = R.neg(k); q.put(t, k);
      for (Map.Entry<E, C> y : g.entrySet()) {
        E s = plus(t, y.getKey()); C o = f.get(s), w = R.mul(nk, y.getValue());
        C z = o == null ? w : R.add(o, w);
        if (R.zero(z)) f.remove(s); else f.put(s, z);
      }
    }
    return new TupleValue(new Value[] { BoolValue.ValTrue, write(R, q) });
  }
  /** first-divisor normal form over a field */
  public static Value PNF(Value r, Value ov, Value fv, Value Gv) {
    Ring R = new Ring(r); Comparator<E> o = order(ov);
    TreeMap<E, C> h = new TreeMap<>(o), out = new TreeMap<>(o); h.putAll(read(R, fv));
    Value[] gs = BigInt.elems(Gv); TreeMap<E, C>[] G = new TreeMap[gs.length];
    for (int i = 0; i < gs.length; i++) { G[i] = new TreeMap<>(o); G[i].putAll(read(R, gs[i])); if (G[i].isEmpty()) throw new RuntimeException("PNF by zero"); }
    while (!h.isEmpty()) {
      E m = h.lastKey(); C c = h.get(m); boolean done = false;
      for (int i = 0; i < G.length && !done; i++) {
        E lm = G[i].lastKey(); int[] d = new int[m.e.length]; boolean ok = true;
        for (int j = 0; j < d.length && ok; j++) { d[j] = m.e[j] - lm.e[j]; ok = d[j] >= 0; }
        if (!ok) continue;
        E t = new E(d); C nk = R.neg(R.div(c, G[i].get(lm))); done = true;
        for (Map.Entry<E, C> y : G[i].entrySet()) {
          E s = plus(t, y.getKey()); C a = h.get(s), w = R.mul(nk, y.getValue()), z = a == null ? w : R.add(a, w);
          if (R.zero(z)) h.remove(s); else h.put(s, z);
        }
      }
      if (!done) { out.put(m, c); h.remove(m); }
    }
    TreeMap<E, C> w = new TreeMap<>(); w.putAll(out);
    return write(R, w);
  }
  static Comparator<E> order(Value ov) {
    RecordValue r = (RecordValue) ov.toRcd();
    boolean g = ((BoolValue) r.select(new StringValue("g"))).val;
    Value[] pv = BigInt.elems((Value) r.select(new StringValue("prec"))); int[] p = new int[pv.length];
    for (int i = 0; i < p.length; i++) p[i] = ((IntValue) pv[i]).val - 1;
    return (a, b) -> {
      if (g) { int x = 0, y = 0; for (int i : a.e) x += i; for (int i : b.e) y += i; if (x != y) return x < y ? -1 : 1; }
      for (int i : p) if (a.e[i] != b.e[i]) return a.e[i] < b.e[i] ? -1 : 1;
      return 0;
    };
  }
}
