// TLC module override for spec/XReal.tla: exact extended rationals written as
// strings "n/d" (d > 0, reduced), "inf", "-inf", "nan".  Irrational functions
// (sqrt, exp, ln, atan, pi) are computed to 60 significant digits.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.Arrays;
import java.util.Comparator;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class XReal {
  static final MathContext MC = new MathContext(70, RoundingMode.HALF_EVEN);
  static final int DIG = 60;
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TEN = BigInteger.TEN;

  static final class Q {
    final BigInteger n, d; // d = 0: n = 1 inf, -1 -inf, 0 nan
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    boolean fin() { return d.signum() != 0; }
    boolean nan() { return d.signum() == 0 && n.signum() == 0; }
    int sgn() { return n.signum(); }
  }
  static final Q INF = new Q(ONE, ZERO), NINF = new Q(ONE.negate(), ZERO), NAN = new Q(ZERO, ZERO);
  static final Q Q0 = new Q(ZERO, ONE), Q1 = new Q(ONE, ONE);
  static final ConcurrentHashMap<String, Q> CACHE = new ConcurrentHashMap<>();

  static Q mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return n.signum() > 0 ? INF : n.signum() < 0 ? NINF : NAN;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(ONE)) {
      BigInteger g = n.gcd(d);
      if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    return new Q(n, d);
  }
  static String str(Value v) {
    if (v instanceof StringValue) return ((StringValue) v).getVal().toString();
    throw new RuntimeException("XReal: not a string: " + v);
  }
  static Q q(Value v) { return parse(str(v)); }
  static Q parse(String s) {
    Q r = CACHE.get(s);
    if (r != null) return r;
    if (s.equals("inf")) r = INF;
    else if (s.equals("-inf")) r = NINF;
    else if (s.equals("nan")) r = NAN;
    else {
      int i = s.indexOf('/');
      if (i < 0) r = new Q(new BigInteger(s), ONE);
      else r = mk(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    }
    if (CACHE.size() > 100000) CACHE.clear();
    CACHE.put(s, r);
    return r;
  }
  static StringValue v(Q q) {
    if (!q.fin()) return new StringValue(q == INF || q.sgn() > 0 ? "inf" : q.sgn() < 0 ? "-inf" : "nan");
    String s = q.n.toString() + "/" + q.d.toString();
    if (CACHE.size() > 100000) CACHE.clear();
    CACHE.put(s, q);
    return new StringValue(s);
  }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Q[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    Q[] r = new Q[t.size()];
    for (int i = 0; i < r.length; i++) r[i] = q(t.elems[i]);
    return r;
  }
  static Value tup(Q[] a) {
    Value[] r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = v(a[i]);
    return new TupleValue(r);
  }

  // ---- arithmetic
  static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
  static Q add(Q a, Q c) {
    if (a.nan() || c.nan()) return NAN;
    if (!a.fin()) return c.fin() || c.sgn() == a.sgn() ? a : NAN;
    if (!c.fin()) return c;
    if (a.d.equals(c.d)) return mk(a.n.add(c.n), a.d);
    return mk(a.n.multiply(c.d).add(c.n.multiply(a.d)), a.d.multiply(c.d));
  }
  static Q sub(Q a, Q c) { return add(a, neg(c)); }
  static Q mul(Q a, Q c) {
    if (a.nan() || c.nan()) return NAN;
    if (!a.fin() || !c.fin()) {
      int s = a.sgn() * c.sgn();
      return s > 0 ? INF : s < 0 ? NINF : NAN;
    }
    return mk(a.n.multiply(c.n), a.d.multiply(c.d));
  }
  static Q div(Q a, Q c) {
    if (a.nan() || c.nan()) return NAN;
    if (!c.fin()) return a.fin() ? Q0 : NAN;
    if (!a.fin()) return c.sgn() < 0 ? neg(a) : a;
    if (c.sgn() == 0) return a.sgn() > 0 ? INF : a.sgn() < 0 ? NINF : NAN;
    return mk(a.n.multiply(c.d), a.d.multiply(c.n));
  }
  static int cmp(Q a, Q c) { // no nans
    if (!a.fin()) return !c.fin() && c.sgn() == a.sgn() ? 0 : a.sgn();
    if (!c.fin()) return -c.sgn();
    return a.n.multiply(c.d).compareTo(c.n.multiply(a.d));
  }
  static boolean le(Q a, Q c) { return !a.nan() && !c.nan() && cmp(a, c) <= 0; }
  static boolean lt(Q a, Q c) { return !a.nan() && !c.nan() && cmp(a, c) < 0; }
  static Q abs(Q a) { return a.sgn() < 0 ? neg(a) : a; }

  public static Value XI(Value n) { return v(new Q(BigInteger.valueOf(((IntValue) n).val), ONE)); }
  public static Value XQ(Value n, Value d) {
    return v(mk(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val)));
  }
  public static Value XAdd(Value a, Value c) { return v(add(q(a), q(c))); }
  public static Value XSub(Value a, Value c) { return v(sub(q(a), q(c))); }
  public static Value XMul(Value a, Value c) { return v(mul(q(a), q(c))); }
  public static Value XDiv(Value a, Value c) { return v(div(q(a), q(c))); }
  public static Value XNeg(Value a) { return v(neg(q(a))); }
  public static Value XAbs(Value a) { return v(abs(q(a))); }
  public static Value XLe(Value a, Value c) { return b(le(q(a), q(c))); }
  public static Value XLt(Value a, Value c) { return b(lt(q(a), q(c))); }
  public static Value XEq(Value a, Value c) {
    Q x = q(a), y = q(c);
    return b(!x.nan() && !y.nan() && cmp(x, y) == 0);
  }
  public static Value XFin(Value a) { return b(q(a).fin()); }
  public static Value XIsNan(Value a) { return b(q(a).nan()); }
  public static Value XMin(Value a, Value c) {
    Q x = q(a), y = q(c);
    return x.nan() || y.nan() ? v(NAN) : v(cmp(x, y) <= 0 ? x : y);
  }
  public static Value XMax(Value a, Value c) {
    Q x = q(a), y = q(c);
    return x.nan() || y.nan() ? v(NAN) : v(cmp(x, y) >= 0 ? x : y);
  }
  public static Value XSum(Value s) {
    Q r = Q0;
    for (Q x : seq(s)) r = add(r, x);
    return v(r);
  }
  public static Value XDot(Value s, Value t) {
    Q[] x = seq(s), y = seq(t);
    if (x.length != y.length) throw new RuntimeException("XDot: lengths differ");
    Q r = Q0;
    for (int i = 0; i < x.length; i++) r = add(r, mul(x[i], y[i]));
    return v(r);
  }
  public static Value XSort(Value s) {
    Q[] x = seq(s);
    for (Q e : x) if (e.nan()) throw new RuntimeException("XSort: nan");
    Arrays.sort(x, new Comparator<Q>() { public int compare(Q a, Q c) { return cmp(a, c); } });
    return tup(x);
  }
  /* |a - b| <= rel * max(|a|,|b|) + abs; non-finite values must coincide (nan = nan). */
  static boolean near(Q x, Q y, Q rel, Q ab) {
    if (x.nan() || y.nan()) return x.nan() && y.nan();
    if (!x.fin() || !y.fin()) return !x.fin() && !y.fin() && x.sgn() == y.sgn();
    Q m = cmp(abs(x), abs(y)) >= 0 ? abs(x) : abs(y);
    return cmp(abs(sub(x, y)), add(mul(rel, m), ab)) <= 0;
  }
  public static Value XNear(Value a, Value c, Value rel, Value ab) { return b(near(q(a), q(c), q(rel), q(ab))); }
  public static Value XNearSeq(Value a, Value c, Value rel, Value ab) {
    Q[] x = seq(a), y = seq(c);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (!near(x[i], y[i], q(rel), q(ab))) return b(false);
    return b(true);
  }

  // ---- integers and decimals
  static BigInteger floor(Q a) {
    BigInteger[] r = a.n.divideAndRemainder(a.d);
    return r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
  }
  static Q pow10(int k) { return k >= 0 ? new Q(TEN.pow(k), ONE) : new Q(ONE, TEN.pow(-k)); }
  public static Value XFloor(Value a) { return v(new Q(floor(q(a)), ONE)); }
  public static Value XCeil(Value a) { return v(new Q(floor(neg(q(a))).negate(), ONE)); }
  /* nearest integer, ties away from zero */
  public static Value XHalfUp(Value a) {
    Q x = q(a);
    BigInteger m = floor(add(abs(x), mk(ONE, BigInteger.TWO)));
    return v(new Q(x.sgn() < 0 ? m.negate() : m, ONE));
  }
  public static Value XToInt(Value a) {
    Q x = q(a);
    if (!x.fin() || !x.d.equals(ONE)) throw new RuntimeException("XToInt: " + str(a));
    return IntValue.gen(x.n.intValueExact());
  }
  public static Value XPow10(Value k) { return v(pow10(((IntValue) k).val)); }
  public static Value XIsInt(Value a) { Q x = q(a); return b(x.fin() && x.d.equals(ONE)); }
  /* floor(log10(|x|)), x /= 0 */
  static int adj(Q x) {
    Q a = abs(x);
    int k = a.n.toString().length() - a.d.toString().length();
    while (cmp(pow10(k), a) > 0) k--;
    while (cmp(pow10(k + 1), a) <= 0) k++;
    return k;
  }
  public static Value XAdj(Value a) { return IntValue.gen(adj(q(a))); }
  /* k such that the denominator is 2^k, or -1 */
  public static Value XLog2Den(Value a) {
    Q x = q(a);
    int k = x.d.bitLength() - 1;
    return IntValue.gen(x.fin() && x.d.bitCount() == 1 ? k : -1);
  }
  /* decimal digits of an integral value, with sign */
  public static Value XStr(Value a) {
    Q x = q(a);
    if (!x.fin() || !x.d.equals(ONE)) throw new RuntimeException("XStr: " + str(a));
    return new StringValue(x.n.toString());
  }
  /* plain decimal numeral (commas ignored) to number; nan when it is none */
  public static Value XParse(Value s) {
    String t = str(s).replace(",", "");
    if (!t.matches("[+-]?[0-9]+(\\.[0-9]+)?")) return v(NAN);
    BigDecimal d = new BigDecimal(t);
    return v(fromBD(d));
  }

  // ---- irrational functions
  static Q fromBD(BigDecimal d) {
    return d.scale() >= 0 ? mk(d.unscaledValue(), TEN.pow(d.scale())) : new Q(d.unscaledValue().multiply(TEN.pow(-d.scale())), ONE);
  }
  static Q rnd(BigDecimal d) { return fromBD(d.round(new MathContext(DIG, RoundingMode.HALF_EVEN)).stripTrailingZeros()); }
  static BigDecimal bd(Q a) { return new BigDecimal(a.n).divide(new BigDecimal(a.d), MC); }
  public static Value XRnd(Value a) { Q x = q(a); return x.fin() ? v(rnd(bd(x))) : v(x); }
  public static Value XSqrt(Value a) {
    Q x = q(a);
    if (x.nan() || x.sgn() < 0) return v(NAN);
    if (!x.fin()) return v(INF);
    BigInteger[] n = x.n.sqrtAndRemainder(), d = x.d.sqrtAndRemainder();
    if (n[1].signum() == 0 && d[1].signum() == 0) return v(mk(n[0], d[0]));
    return v(rnd(bd(x).sqrt(MC)));
  }
  static BigDecimal exp(BigDecimal x) {
    // x = k * 2^-m ... halve until |x| < 2^-10, Taylor, square back
    MathContext mc = new MathContext(110, RoundingMode.HALF_EVEN);
    int m = 0;
    BigDecimal y = x;
    while (y.abs().compareTo(new BigDecimal("0.001")) > 0) { y = y.divide(BigDecimal.valueOf(2), mc); m++; }
    BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(y, mc).divide(BigDecimal.valueOf(i), mc);
      if (t.signum() == 0) break;
      s = s.add(t, mc);
    }
    for (int i = 0; i < m; i++) s = s.multiply(s, mc);
    return s;
  }
  static BigDecimal ln(BigDecimal x) {
    // x = m * 10^k with m in [1, 10)
    int k = x.precision() - x.scale() - 1;
    BigDecimal m = x.scaleByPowerOfTen(-k);
    MathContext mc = new MathContext(90, RoundingMode.HALF_EVEN);
    BigDecimal r = ln1(m, mc);
    return k == 0 ? r : r.add(BigDecimal.valueOf(k).multiply(ln1(BigDecimal.TEN, mc), mc), mc);
  }
  static final ConcurrentHashMap<BigDecimal, BigDecimal> LN = new ConcurrentHashMap<>();
  static BigDecimal ln1(BigDecimal m, MathContext mc) {
    BigDecimal c = LN.get(m);
    if (c != null) return c;
    BigDecimal y = BigDecimal.valueOf(Math.log(m.doubleValue()));
    for (int i = 0; i < 4; i++) {
      BigDecimal e = exp(y);
      y = y.add(BigDecimal.valueOf(2).multiply(m.subtract(e, mc).divide(m.add(e, mc), mc), mc), mc);
    }
    if (LN.size() > 50000) LN.clear();
    LN.put(m, y);
    return y;
  }
  public static Value XExp(Value a) {
    Q x = q(a);
    if (x.nan()) return v(NAN);
    if (!x.fin()) return v(x.sgn() > 0 ? INF : Q0);
    if (x.sgn() == 0) return v(Q1);
    if (cmp(abs(x), new Q(BigInteger.valueOf(20000), ONE)) > 0) return v(x.sgn() > 0 ? INF : Q0);
    return v(rnd(exp(new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(110)))));
  }
  public static Value XLn(Value a) {
    Q x = q(a);
    if (x.nan() || x.sgn() < 0) return v(NAN);
    if (!x.fin()) return v(INF);
    if (x.sgn() == 0) return v(NINF);
    if (cmp(x, Q1) == 0) return v(Q0);
    return v(rnd(ln(new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(90)))));
  }
  static BigDecimal atan(BigDecimal x) {
    MathContext mc = new MathContext(90, RoundingMode.HALF_EVEN);
    int m = 0;
    BigDecimal y = x;
    while (y.abs().compareTo(new BigDecimal("0.01")) > 0) {
      // atan(y) = 2 atan(y / (1 + sqrt(1 + y^2)))
      BigDecimal s = BigDecimal.ONE.add(y.multiply(y, mc), mc).sqrt(mc);
      y = y.divide(BigDecimal.ONE.add(s, mc), mc);
      m++;
    }
    BigDecimal y2 = y.multiply(y, mc), t = y, r = y;
    for (int i = 1; i < 40; i++) {
      t = t.multiply(y2, mc).negate();
      r = r.add(t.divide(BigDecimal.valueOf(2 * i + 1), mc), mc);
    }
    return r.multiply(BigDecimal.valueOf(2).pow(m), mc);
  }
  static BigDecimal PI;
  static synchronized BigDecimal pi() {
    if (PI == null) PI = atan(BigDecimal.ONE).multiply(BigDecimal.valueOf(4));
    return PI;
  }
  public static Value XPi() { return v(rnd(pi())); }
  public static Value XAtan(Value a) {
    Q x = q(a);
    if (x.nan()) return v(NAN);
    if (!x.fin()) return v(rnd(pi().divide(BigDecimal.valueOf(x.sgn() * 2))));
    if (x.sgn() == 0) return v(Q0);
    return v(rnd(atan(bd(x))));
  }
}
