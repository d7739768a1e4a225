// TLC module override for spec/Rat.tla: exact rational arithmetic.
// A rational is carried through TLC as its canonical text: "n" or "n/d" with d > 1, gcd(n,d) = 1.
// "nan", "inf" and "-inf" are accepted as inputs and are absorbing / unordered, so every
// operator is total on whatever a recorded trace may contain.
import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

public class Rat {
  private static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TWO = BigInteger.TWO;

  static final class Q {
    final BigInteger n, d; // d > 0; d == 0 means non-finite (n = 0: nan, 1: inf, -1: -inf)
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    boolean fin() { return d.signum() != 0; }
  }
  static final Q NAN = new Q(ZERO, ZERO), PINF = new Q(ONE, ZERO), NINF = new Q(ONE.negate(), ZERO);

  static Q mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return NAN;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(ONE)) {
      int k = Math.min(n.getLowestSetBit() < 0 ? Integer.MAX_VALUE : n.getLowestSetBit(), d.getLowestSetBit());
      if (k > 0) { n = n.shiftRight(k); d = d.shiftRight(k); }
      if (n.signum() == 0) d = ONE;
      else if (d.bitLength() - 1 != d.getLowestSetBit()) { // not a power of two
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
      } else if (d.getLowestSetBit() > 0 && !n.testBit(0)) { // power of two and n even (cannot happen after shift)
        BigInteger g = n.gcd(d); n = n.divide(g); d = d.divide(g);
      }
    }
    return new Q(n, d);
  }
  static Q in(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
    if (!(v instanceof StringValue)) throw new RuntimeException("Rat: not a number: " + v);
    String s = ((StringValue) v).val.toString();
    if (s.equals("nan")) return NAN;
    if (s.equals("inf")) return PINF;
    if (s.equals("-inf")) return NINF;
    int i = s.indexOf('/');
    if (i < 0) return new Q(new BigInteger(s), ONE);
    return mk(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
  }
  static Value out(Q q) {
    if (!q.fin()) return new StringValue(q.n.signum() == 0 ? "nan" : q.n.signum() > 0 ? "inf" : "-inf");
    return new StringValue(q.d.equals(ONE) ? q.n.toString() : q.n + "/" + q.d);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Q add(Q a, Q b) { return !a.fin() || !b.fin() ? NAN : mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d)); }
  static Q sub(Q a, Q b) { return !a.fin() || !b.fin() ? NAN : mk(a.n.multiply(b.d).subtract(b.n.multiply(a.d)), a.d.multiply(b.d)); }
  static Q mul(Q a, Q b) { return !a.fin() || !b.fin() ? NAN : mk(a.n.multiply(b.n), a.d.multiply(b.d)); }
  static Q div(Q a, Q b) { return !a.fin() || !b.fin() || b.n.signum() == 0 ? NAN : mk(a.n.multiply(b.d), a.d.multiply(b.n)); }
  // comparison of two non-nan values
  static int cmp(Q a, Q b) {
    if (a.fin() && b.fin()) return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    int x = a.fin() ? 0 : a.n.signum(), y = b.fin() ? 0 : b.n.signum();
    return Integer.compare(x, y);
  }
  static boolean isnan(Q a) { return !a.fin() && a.n.signum() == 0; }

  public static Value RLoaded() { return BoolValue.ValTrue; }
  public static Value RAdd(Value a, Value b) { return out(add(in(a), in(b))); }
  public static Value RSub(Value a, Value b) { return out(sub(in(a), in(b))); }
  public static Value RMul(Value a, Value b) { return out(mul(in(a), in(b))); }
  public static Value RDiv(Value a, Value b) { return out(div(in(a), in(b))); }
  public static Value RNeg(Value a) { Q q = in(a); return out(new Q(q.n.negate(), q.d)); }
  public static Value RAbs(Value a) { Q q = in(a); return out(new Q(q.n.abs(), q.d)); }
  public static Value RLt(Value a, Value b) { Q x = in(a), y = in(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) < 0); }
  public static Value RLe(Value a, Value b) { Q x = in(a), y = in(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) <= 0); }
  public static Value REq(Value a, Value b) { Q x = in(a), y = in(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) == 0); }
  public static Value RFin(Value a) { return bool(in(a).fin()); }
  public static Value RMax(Value a, Value b) { Q x = in(a), y = in(b); if (isnan(x) || isnan(y)) return out(NAN); return cmp(x, y) >= 0 ? out(x) : out(y); }
  public static Value RMin(Value a, Value b) { Q x = in(a), y = in(b); if (isnan(x) || isnan(y)) return out(NAN); return cmp(x, y) <= 0 ? out(x) : out(y); }
  public static Value RPow(Value a, Value k) {
    Q q = in(a); int e = ((IntValue) k).val;
    if (!q.fin()) return out(NAN);
    if (e >= 0) return out(new Q(q.n.pow(e), q.d.pow(e)));
    if (q.n.signum() == 0) return out(NAN);
    return out(mk(q.d.pow(-e), q.n.pow(-e)));
  }
  // nearest multiple of 2^-k with k chosen so that `bits` significant bits remain (identity when already short)
  static Q round(Q q, int bits) {
    if (!q.fin() || q.n.signum() == 0) return q;
    int e = q.n.bitLength() - q.d.bitLength(); // |q| ~ 2^e
    int sh = bits - e;                          // scale by 2^sh, round to integer
    BigInteger num = sh >= 0 ? q.n.shiftLeft(sh) : q.n, den = sh >= 0 ? q.d : q.d.shiftLeft(-sh);
    BigInteger two = num.multiply(TWO).add(den);
    BigInteger[] qr = two.divideAndRemainder(den.multiply(TWO));
    BigInteger r = qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
    return sh >= 0 ? mk(r, ONE.shiftLeft(sh)) : mk(r.shiftLeft(-sh), ONE);
  }
  public static Value RRound(Value a, Value bits) { return out(round(in(a), ((IntValue) bits).val)); }
  // floor(sqrt) to `bits` bits of precision: 0 <= sqrt(a) - r <= r * 2^-bits
  public static Value RSqrt(Value a, Value bits) {
    Q q = in(a); int b = ((IntValue) bits).val;
    if (!q.fin() || q.n.signum() < 0) return out(NAN);
    if (q.n.signum() == 0) return out(q);
    int e = q.n.bitLength() - q.d.bitLength();
    int sh = Math.max(0, b - e / 2 + 2);
    BigInteger v = q.n.shiftLeft(2 * sh).divide(q.d);
    return out(mk(v.sqrt(), ONE.shiftLeft(sh)));
  }
  // k-th root of a positive number from below, with about that many significant bits
  public static Value RRoot(Value a, Value kk, Value bits) {
    Q x = in(a); int k = ((IntValue) kk).val, b = ((IntValue) bits).val;
    if (!x.fin() || x.n.signum() < 0) return out(NAN);
    if (x.n.signum() == 0) return out(new Q(ZERO, ONE));
    int e = (x.n.bitLength() - x.d.bitLength()) / k;           // root is about 2^e
    int sh = b - e + 2;                                        // floor(root * 2^sh)
    BigInteger num = x.n, den = x.d;
    if (sh >= 0) num = num.shiftLeft(sh * k); else den = den.shiftLeft(-sh * k);
    BigInteger v = num.divide(den), lo = ZERO, hi = ONE.shiftLeft(v.bitLength() / k + 1);
    while (hi.subtract(lo).compareTo(ONE) > 0) {
      BigInteger m = lo.add(hi).shiftRight(1);
      if (m.pow(k).compareTo(v) <= 0) lo = m; else hi = m;
    }
    return out(sh >= 0 ? mk(lo, ONE.shiftLeft(sh)) : mk(lo.shiftLeft(-sh), ONE));
  }
  public static Value RFloor(Value a) {
    Q q = in(a); if (!q.fin()) throw new RuntimeException("RFloor of non-finite");
    BigInteger[] qr = q.n.divideAndRemainder(q.d);
    BigInteger r = qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
    return IntValue.gen(r.intValueExact());
  }
  // 2^k
  public static Value RTwo(Value k) {
    int e = ((IntValue) k).val;
    return e >= 0 ? out(new Q(ONE.shiftLeft(e), ONE)) : out(new Q(ONE, ONE.shiftLeft(-e)));
  }
  // decimal rendering for messages
  public static Value RShow(Value a) {
    Q q = in(a); if (!q.fin()) return out(q);
    return new StringValue(Double.toString(new java.math.BigDecimal(q.n).divide(new java.math.BigDecimal(q.d), new java.math.MathContext(20)).doubleValue()));
  }
  static Value[] seq(Value v) {
    Value t = (Value) v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  // sequence operators (the hot loops of the trace specifications)
  public static Value VAdd(Value a, Value b) { Value[] x = seq(a), y = seq(b), r = new Value[x.length]; for (int i = 0; i < r.length; i++) r[i] = out(add(in(x[i]), in(y[i]))); return new TupleValue(r); }
  public static Value VSub(Value a, Value b) { Value[] x = seq(a), y = seq(b), r = new Value[x.length]; for (int i = 0; i < r.length; i++) r[i] = out(sub(in(x[i]), in(y[i]))); return new TupleValue(r); }
  public static Value VMul(Value a, Value b) { Value[] x = seq(a), y = seq(b), r = new Value[x.length]; for (int i = 0; i < r.length; i++) r[i] = out(mul(in(x[i]), in(y[i]))); return new TupleValue(r); }
  public static Value VScale(Value c, Value a) { Value[] x = seq(a), r = new Value[x.length]; Q k = in(c); for (int i = 0; i < r.length; i++) r[i] = out(mul(k, in(x[i]))); return new TupleValue(r); }
  public static Value VRound(Value a, Value bits) { Value[] x = seq(a), r = new Value[x.length]; int b = ((IntValue) bits).val; for (int i = 0; i < r.length; i++) r[i] = out(round(in(x[i]), b)); return new TupleValue(r); }
  public static Value VSum(Value a) { Value[] x = seq(a); Q s = new Q(ZERO, ONE); for (Value v : x) s = add(s, in(v)); return out(s); }
  public static Value VDot(Value a, Value b) { Value[] x = seq(a), y = seq(b); Q s = new Q(ZERO, ONE); for (int i = 0; i < x.length; i++) s = add(s, mul(in(x[i]), in(y[i]))); return out(s); }
  public static Value VMaxAbs(Value a) { Value[] x = seq(a); Q m = new Q(ZERO, ONE); for (Value v : x) { Q q = in(v); if (!q.fin()) return out(NAN); q = new Q(q.n.abs(), q.d); if (cmp(q, m) > 0) m = q; } return out(m); }
  // polynomials: coefficient sequences, lowest power first
  static Q[] qs(Value v) { Value[] x = seq(v); Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) r[i] = in(x[i]); return r; }
  static Value tup(Q[] q) { Value[] r = new Value[q.length]; for (int i = 0; i < r.length; i++) r[i] = out(q[i]); return new TupleValue(r); }
  static final Q QZ = new Q(ZERO, ONE);
  static Q[] pmul(Q[] a, Q[] b, int n) {
    if (a.length == 0 || b.length == 0) return new Q[0];
    int len = Math.min(n, a.length + b.length - 1);
    Q[] r = new Q[len]; java.util.Arrays.fill(r, QZ);
    for (int i = 0; i < a.length; i++) if (!(a[i].fin() && a[i].n.signum() == 0))
      for (int j = 0; j < b.length && i + j < len; j++) r[i + j] = add(r[i + j], mul(a[i], b[j]));
    return r;
  }
  public static Value PMul(Value a, Value b) { return tup(pmul(qs(a), qs(b), Integer.MAX_VALUE)); }
  public static Value PMulT(Value a, Value b, Value n) { return tup(pmul(qs(a), qs(b), ((IntValue) n).val)); }
  public static Value PAdd(Value a, Value b) {
    Q[] x = qs(a), y = qs(b), r = new Q[Math.max(x.length, y.length)];
    for (int i = 0; i < r.length; i++) r[i] = add(i < x.length ? x[i] : QZ, i < y.length ? y[i] : QZ);
    return tup(r);
  }
  public static Value PInt(Value a) {
    Q[] x = qs(a), r = new Q[x.length + 1]; r[0] = QZ;
    for (int i = 0; i < x.length; i++) r[i + 1] = div(x[i], new Q(BigInteger.valueOf(i + 1), ONE));
    return tup(r);
  }
  public static Value PDer(Value a) {
    Q[] x = qs(a), r = new Q[Math.max(0, x.length - 1)];
    for (int i = 0; i < r.length; i++) r[i] = mul(x[i + 1], new Q(BigInteger.valueOf(i + 1), ONE));
    return tup(r);
  }
  public static Value PEval(Value a, Value t) {
    Q[] x = qs(a); Q q = in(t), s = QZ;
    for (int i = x.length - 1; i >= 0; i--) s = add(mul(s, q), x[i]);
    return out(s);
  }
  // transcendental functions to 2^-bits (absolute for cos, sin; relative for exp), by halving and Taylor series in fixed point
  static BigInteger fix(Q q, int b) { return q.n.shiftLeft(b).divide(q.d); }
  public static Value RExp(Value a, Value bits) {
    Q q = in(a); int b = ((IntValue) bits).val;
    if (!q.fin()) return out(q.n.signum() < 0 ? new Q(ZERO, ONE) : q);
    int k = Math.max(0, q.n.bitLength() - q.d.bitLength() + 2) + 8, w = b + 2 * k + 40;
    if (k > 40) throw new RuntimeException("RExp: argument too large");
    BigInteger x = fix(new Q(q.n, q.d.shiftLeft(k)), w), one = ONE.shiftLeft(w), t = one, s = one;
    for (int i = 1; t.signum() != 0 && i < 10000; i++) { t = t.multiply(x).shiftRight(w).divide(BigInteger.valueOf(i)); s = s.add(t); if (t.bitLength() <= 1 && i > 40) break; }
    Q r = mk(s, one);
    for (int i = 0; i < k; i++) r = round(mul(r, r), w);
    return out(round(r, b));
  }
  static Q[] cossin(Q q, int b) {
    int k = Math.max(0, q.n.bitLength() - q.d.bitLength() + 2) + 4, w = b + 4 * k + 40;
    if (k > 40) throw new RuntimeException("RCos: argument too large");
    BigInteger one = ONE.shiftLeft(w), x = fix(new Q(q.n, q.d.shiftLeft(k)), w), t = one, c = one, s = ZERO;
    for (int i = 1; i < 2000; i++) {
      t = t.multiply(x).shiftRight(w).divide(BigInteger.valueOf(i));
      if (i % 4 == 1) s = s.add(t); else if (i % 4 == 2) c = c.subtract(t); else if (i % 4 == 3) s = s.subtract(t); else c = c.add(t);
      if (t.bitLength() <= 1 && i > 20) break;
    }
    for (int i = 0; i < k; i++) { BigInteger c2 = c.multiply(c).subtract(s.multiply(s)).shiftRight(w); s = c.multiply(s).shiftRight(w - 1); c = c2; }
    return new Q[] { round(mk(c, one), b + 4), round(mk(s, one), b + 4) };
  }
  public static Value RCos(Value a, Value bits) { Q q = in(a); return q.fin() ? out(cossin(q, ((IntValue) bits).val)[0]) : out(NAN); }
  public static Value RSin(Value a, Value bits) { Q q = in(a); return q.fin() ? out(cossin(q, ((IntValue) bits).val)[1]) : out(NAN); }
  static BigInteger atanInv(int n, int w) { BigInteger t = ONE.shiftLeft(w).divide(BigInteger.valueOf(n)), s = t, n2 = BigInteger.valueOf((long) n * n);
    for (int i = 1; t.signum() != 0; i++) { t = t.divide(n2); BigInteger u = t.divide(BigInteger.valueOf(2 * i + 1)); s = i % 2 == 1 ? s.subtract(u) : s.add(u); } return s; }
  public static Value RPi(Value bits) { int b = ((IntValue) bits).val, w = b + 20;
    return out(round(mk(atanInv(5, w).multiply(BigInteger.valueOf(16)).subtract(atanInv(239, w).multiply(BigInteger.valueOf(4))), ONE.shiftLeft(w)), b)); }
}
