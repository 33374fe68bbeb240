/* TLC module override for Rat.tla: exact rational arithmetic of unbounded size.
 * A rational is a TLC integer or a canonical string "n" / "n/d" (d > 1, gcd 1).
 * The strings "nan", "inf", "-inf" are accepted: arithmetic on them gives "nan",
 * every comparison with them is FALSE.  See Rat.tla for the definitions overridden. */
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rat {
  static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE;
  static final class Q {
    final BigInteger n, d;
    /* not reduced until it becomes a value again, see lowest() */
    Q(BigInteger n, BigInteger d) {
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      this.n = n; this.d = d;
    }
    Q lowest() {
      if (d.equals(ONE)) return this;
      if (n.signum() == 0) return new Q(ZERO, ONE);
      int k = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
      BigInteger a = n.shiftRight(k), c = d.shiftRight(k);
      if (!c.equals(ONE) && c.bitLength() != c.getLowestSetBit() + 1) {      // not a power of two
        BigInteger g = a.gcd(c);
        if (!g.equals(ONE)) { a = a.divide(g); c = c.divide(g); }
      }
      return new Q(a, c);
    }
    Q trim() { return d.bitLength() > 1500 ? lowest() : this; }
    static Q of(long v) { return new Q(BigInteger.valueOf(v), ONE); }
    Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
    Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) { return o.n.signum() == 0 ? null : new Q(n.multiply(o.d), d.multiply(o.n)); }
    Q abs() { return new Q(n.abs(), d); }
    int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    BigInteger floor() {
      BigInteger[] qr = n.divideAndRemainder(d);
      return (qr[1].signum() < 0) ? qr[0].subtract(ONE) : qr[0];
    }
  }
  static Q q(Value v) {
    if (v instanceof IntValue) return Q.of(((IntValue) v).val);
    if (v instanceof StringValue) {
      UniqueString u = ((StringValue) v).val;
      Seen z = CACHE[u.getTok() & MASK];
      if (z != null && z.u == u) return z.q;
      Q x = parse(u.toString());
      CACHE[u.getTok() & MASK] = new Seen(u, x);
      return x;
    }
    return null;
  }
  /* the last numbers read or made, by the token of their string */
  static final class Seen {
    final UniqueString u; final Q q;
    Seen(UniqueString u, Q q) { this.u = u; this.q = q; }
  }
  static final int MASK = (1 << 16) - 1;
  static final Seen[] CACHE = new Seen[MASK + 1];
  static Q parse(String s) {
    try {
      int k = s.indexOf('/');
      if (k < 0) return new Q(new BigInteger(s), ONE);
      BigInteger d = new BigInteger(s.substring(k + 1));
      return d.signum() == 0 ? null : new Q(new BigInteger(s.substring(0, k)), d);
    } catch (NumberFormatException e) { return null; }
  }
  static final BigInteger LO = BigInteger.valueOf(Integer.MIN_VALUE), HI = BigInteger.valueOf(Integer.MAX_VALUE);
  static Value v(Q x) {
    if (x == null) return new StringValue("nan");
    x = x.lowest();
    if (x.d.equals(ONE)) {
      if (x.n.compareTo(LO) >= 0 && x.n.compareTo(HI) <= 0) return IntValue.gen(x.n.intValue());
      return new StringValue(x.n.toString());
    }
    StringValue r = new StringValue(x.n + "/" + x.d);
    CACHE[r.val.getTok() & MASK] = new Seen(r.val, x);
    return r;
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RFin(Value a) { return b(q(a) != null); }
  public static Value RAdd(Value a, Value c) { Q x = q(a), y = q(c); return v(x == null || y == null ? null : x.add(y)); }
  public static Value RSub(Value a, Value c) { Q x = q(a), y = q(c); return v(x == null || y == null ? null : x.sub(y)); }
  public static Value RMul(Value a, Value c) { Q x = q(a), y = q(c); return v(x == null || y == null ? null : x.mul(y)); }
  public static Value RDiv(Value a, Value c) { Q x = q(a), y = q(c); return v(x == null || y == null ? null : x.div(y)); }
  public static Value RNeg(Value a) { Q x = q(a); return v(x == null ? null : Q.of(0).sub(x)); }
  public static Value RAbs(Value a) { Q x = q(a); return v(x == null ? null : x.abs()); }
  public static Value REq(Value a, Value c) { Q x = q(a), y = q(c); return b(x != null && y != null && x.cmp(y) == 0); }
  public static Value RLe(Value a, Value c) { Q x = q(a), y = q(c); return b(x != null && y != null && x.cmp(y) <= 0); }
  public static Value RLt(Value a, Value c) { Q x = q(a), y = q(c); return b(x != null && y != null && x.cmp(y) < 0); }
  public static Value RFloor(Value a) { Q x = q(a); return v(x == null ? null : new Q(x.floor(), ONE)); }
  /* round half to even */
  public static Value RRound(Value a) {
    Q x = q(a);
    if (x == null) return v(null);
    Q two = x.mul(Q.of(2));
    BigInteger f = x.floor();
    Q frac2 = two.sub(new Q(f.shiftLeft(1), ONE));           // 2*frac in [0,2)
    int c = frac2.cmp(Q.of(1));
    if (c > 0 || (c == 0 && f.testBit(0))) f = f.add(ONE);
    return v(new Q(f, ONE));
  }
  public static Value RClose(Value a, Value c, Value tol) {
    Q x = q(a), y = q(c), t = q(tol);
    return b(x != null && y != null && t != null && x.sub(y).abs().cmp(t) <= 0);
  }
  /* |a - c| <= tol * max(1, |c|) */
  public static Value RNear(Value a, Value c, Value tol) {
    Q x = q(a), y = q(c), t = q(tol);
    if (x == null || y == null || t == null) return b(false);
    Q m = y.abs(); if (m.cmp(Q.of(1)) < 0) m = Q.of(1);
    return b(x.sub(y).abs().cmp(t.mul(m)) <= 0);
  }
  /* square root, correct to at least 60 significant digits; exact when the argument is the square of a rational */
  public static Value RSqrt(Value a) {
    Q x = q(a);
    if (x == null || x.n.signum() < 0) return v(null);
    x = x.lowest();
    BigInteger rn = x.n.sqrt(), rd = x.d.sqrt();
    if (rn.multiply(rn).equals(x.n) && rd.multiply(rd).equals(x.d)) return v(new Q(rn, rd));
    BigDecimal r = new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(140)).sqrt(new MathContext(70));
    BigInteger u = r.unscaledValue(); int sc = r.scale();
    return v(sc >= 0 ? new Q(u, BigInteger.TEN.pow(sc)) : new Q(u.multiply(BigInteger.TEN.pow(-sc)), ONE));
  }
  /* the nearest number of 128 significant binary digits */
  public static Value RShort(Value a) {
    Q x = q(a);
    if (x == null) return v(null);
    if (x.n.bitLength() <= 128 && x.d.bitCount() == 1) return v(x);
    int k = 128 - (x.n.bitLength() - x.d.bitLength());           // n/d * 2^k has about 128 binary digits
    BigInteger n = k > 0 ? x.n.shiftLeft(k) : x.n, d = k > 0 ? x.d : x.d.shiftLeft(-k);
    BigInteger f = new Q(n.shiftLeft(1).add(d), d.shiftLeft(1)).floor();
    return v(k > 0 ? new Q(f, ONE.shiftLeft(k)) : new Q(f.shiftLeft(-k), ONE));
  }
  static Value[] elems(Value s) {
    TupleValue t = (TupleValue) ((Value) s).toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + s);
    return t.elems;
  }
  public static Value RSum(Value s) {
    Q acc = Q.of(0);
    for (Value e : elems(s)) { Q x = q(e); if (x == null) return v(null); acc = acc.add(x).trim(); }
    return v(acc);
  }
  public static Value RMaxOf(Value s) { return extreme(s, 1); }
  public static Value RMinOf(Value s) { return extreme(s, -1); }
  static Value extreme(Value s, int sign) {
    Q best = null; Value out = null;
    for (Value e : elems(s)) {
      Q x = q(e);
      if (x == null) return v(null);
      if (best == null || x.cmp(best) * sign > 0) { best = x; out = e; }
    }
    return out == null ? v(null) : out;
  }
  public static Value RDot(Value s, Value t) {
    Value[] a = elems(s), c = elems(t);
    if (a.length != c.length) return v(null);
    Q acc = Q.of(0);
    for (int i = 0; i < a.length; i++) {
      Q x = q(a[i]), y = q(c[i]); if (x == null || y == null) return v(null);
      acc = acc.add(x.mul(y)).trim();
    }
    return v(acc);
  }
}
