// TLC module override for Num.tla: exact rational arithmetic (BigInteger) and IEEE-754 double
// arithmetic.  Only arithmetic lives here; everything that is a property is in the TLA+ modules.
//   doubles    : 16 hex digits of the IEEE bit pattern (string)
//   rationals  : "p/q" with p, q in hexadecimal, q > 0, gcd(p,q) = 1 (string)
import java.math.BigInteger;
import java.math.BigDecimal;
import java.math.MathContext;
import tlc2.value.impl.*;
import tlc2.value.IValue;

public class Num {
  static final String HEX = "0123456789abcdef";
  static String str(Value v) {
    if (v instanceof StringValue) return ((StringValue) v).val.toString();
    throw new RuntimeException("Num: string expected, got " + v);
  }
  static double d(Value v) { return Double.longBitsToDouble(Long.parseUnsignedLong(str(v), 16)); }
  static Value s(double x) {
    long b = Double.doubleToRawLongBits(x);
    char[] c = new char[16];
    for (int i = 15; i >= 0; i--) { c[i] = HEX.charAt((int) (b & 15)); b >>>= 4; }
    return new StringValue(new String(c));
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }

  // ---- doubles
  public static Value FAdd(Value a, Value b) { return s(d(a) + d(b)); }
  public static Value FSub(Value a, Value b) { return s(d(a) - d(b)); }
  public static Value FMul(Value a, Value b) { return s(d(a) * d(b)); }
  public static Value FDiv(Value a, Value b) { return s(d(a) / d(b)); }
  public static Value FNeg(Value a) { return s(-d(a)); }
  public static Value FAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value FSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value FSin(Value a) { return s(Math.sin(d(a))); }
  public static Value FCos(Value a) { return s(Math.cos(d(a))); }
  public static Value FExp(Value a) { return s(Math.exp(d(a))); }
  public static Value FPow(Value a, Value b) { return s(Math.pow(d(a), d(b))); }
  public static Value FMax(Value a, Value b) { return s(Math.max(d(a), d(b))); }
  public static Value FMin(Value a, Value b) { return s(Math.min(d(a), d(b))); }
  public static Value FLt(Value a, Value b) { return bool(d(a) < d(b)); }
  public static Value FLe(Value a, Value b) { return bool(d(a) <= d(b)); }
  public static Value FEq(Value a, Value b) { double x = d(a), y = d(b); return bool(x == y || (x != x && y != y)); }
  public static Value FIsNaN(Value a) { return bool(Double.isNaN(d(a))); }
  public static Value FIsFinite(Value a) { double x = d(a); return bool(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FOfInt(Value a) { return s((double) i(a)); }
  public static Value FOfStr(Value a) { return s(Double.parseDouble(str(a))); }
  public static Value FShow(Value a) { return new StringValue(Double.toString(d(a))); }
  public static Value F32Round(Value a) { return s((double) (float) d(a)); }

  // ---- rationals
  static final class R {
    final BigInteger p, q;
    R(BigInteger p, BigInteger q) { this.p = p; this.q = q; }
  }
  static R norm(BigInteger p, BigInteger q) {
    if (q.signum() == 0) throw new RuntimeException("Num: division by zero");
    if (p.signum() == 0) return new R(BigInteger.ZERO, BigInteger.ONE);
    if (q.signum() < 0) { p = p.negate(); q = q.negate(); }
    BigInteger g = p.gcd(q);
    if (!g.equals(BigInteger.ONE)) { p = p.divide(g); q = q.divide(g); }
    return new R(p, q);
  }
  static R r(Value v) {
    String t = str(v);
    int k = t.indexOf('/');
    if (k < 0) return new R(new BigInteger(t, 16), BigInteger.ONE);
    return new R(new BigInteger(t.substring(0, k), 16), new BigInteger(t.substring(k + 1), 16));
  }
  static Value s(R x) { return new StringValue(x.p.toString(16) + "/" + x.q.toString(16)); }
  static R add(R a, R b) {
    if (a.q.equals(b.q)) return norm(a.p.add(b.p), a.q);
    return norm(a.p.multiply(b.q).add(b.p.multiply(a.q)), a.q.multiply(b.q));
  }
  static R mul(R a, R b) { return norm(a.p.multiply(b.p), a.q.multiply(b.q)); }
  static int cmp(R a, R b) { return a.p.multiply(b.q).compareTo(b.p.multiply(a.q)); }
  static R ofDouble(double x) {
    if (Double.isNaN(x) || Double.isInfinite(x)) throw new RuntimeException("Num: not finite");
    BigDecimal bd = new BigDecimal(x);
    BigInteger p = bd.unscaledValue();
    int sc = bd.scale();
    if (sc <= 0) return new R(p.multiply(BigInteger.TEN.pow(-sc)), BigInteger.ONE);
    // exact dyadic: avoid decimal blow-up by going through the bits
    long bits = Double.doubleToRawLongBits(x);
    int e = (int) ((bits >>> 52) & 0x7ff);
    long m = bits & 0xfffffffffffffL;
    if (e == 0) e = 1; else m |= 0x10000000000000L;
    BigInteger mm = BigInteger.valueOf(bits < 0 ? -m : m);
    int k = e - 1075;
    if (k >= 0) return new R(mm.shiftLeft(k), BigInteger.ONE);
    return norm(mm, BigInteger.ONE.shiftLeft(-k));
  }
  public static Value RofF(Value a) { return s(ofDouble(d(a))); }
  public static Value RofInt(Value a) { return s(new R(BigInteger.valueOf(i(a)), BigInteger.ONE)); }
  public static Value RPow2(Value k) {
    int n = i(k);
    return s(n >= 0 ? new R(BigInteger.ONE.shiftLeft(n), BigInteger.ONE) : new R(BigInteger.ONE, BigInteger.ONE.shiftLeft(-n)));
  }
  public static Value RAdd(Value a, Value b) { return s(add(r(a), r(b))); }
  public static Value RSub(Value a, Value b) { R y = r(b); return s(add(r(a), new R(y.p.negate(), y.q))); }
  public static Value RMul(Value a, Value b) { return s(mul(r(a), r(b))); }
  public static Value RDiv(Value a, Value b) { R y = r(b); R x = r(a); return s(norm(x.p.multiply(y.q), x.q.multiply(y.p))); }
  public static Value RNeg(Value a) { R x = r(a); return s(new R(x.p.negate(), x.q)); }
  public static Value RAbs(Value a) { R x = r(a); return s(new R(x.p.abs(), x.q)); }
  public static Value RLt(Value a, Value b) { return bool(cmp(r(a), r(b)) < 0); }
  public static Value RLe(Value a, Value b) { return bool(cmp(r(a), r(b)) <= 0); }
  public static Value REq(Value a, Value b) { return bool(cmp(r(a), r(b)) == 0); }
  // the double nearest to a rational (for reporting and for tolerant comparisons only)
  public static Value FofR(Value a) {
    R x = r(a);
    return s(new BigDecimal(x.p).divide(new BigDecimal(x.q), new MathContext(40)).doubleValue());
  }
  // the same value, with every (nested) function over 1..n evaluated now and stored as a tuple
  public static Value Force(Value a) {
    Value t = (a instanceof FcnLambdaValue || a instanceof FcnRcdValue || a instanceof TupleValue) ? (Value) a.toTuple() : null;
    if (t == null) return a;
    Value[] e = ((TupleValue) t).elems;
    Value[] r = new Value[e.length];
    for (int k = 0; k < e.length; k++) r[k] = Force(e[k]);
    return new TupleValue(r);
  }
  // sum of componentwise products of two sequences of rationals
  public static Value RDot(Value a, Value b) {
    Value[] u = ((TupleValue) a.toTuple()).elems, v = ((TupleValue) b.toTuple()).elems;
    if (u.length != v.length) throw new RuntimeException("Num: RDot lengths");
    R acc = new R(BigInteger.ZERO, BigInteger.ONE);
    for (int k = 0; k < u.length; k++) acc = add(acc, mul(r(u[k]), r(v[k])));
    return s(acc);
  }
}
