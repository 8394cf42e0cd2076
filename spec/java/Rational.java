// TLC override for module Rational: exact rationals of unbounded size.
// The TLA+ definitions in Rational.tla are the meaning; RationalCheck.tla compares the two.
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public class Rational {
  public static final class Big extends UserObj {
    final BigInteger n, d;
    Big(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    static Big of(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new RuntimeException("Rational: zero denominator");
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (!d.equals(BigInteger.ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      }
      return new Big(n, d);
    }
    int cmp(Big o) {
      if (d.equals(o.d)) return n.compareTo(o.n);
      return n.multiply(o.d).compareTo(o.n.multiply(d));
    }
    @Override public int compareTo(Value v) {
      if (v instanceof UserValue && ((UserValue) v).userObj instanceof Big) return cmp((Big) ((UserValue) v).userObj);
      throw new RuntimeException("Rational: compared with " + v);
    }
    @Override public boolean member(Value v) { return false; }
    @Override public boolean isFinite() { return true; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append(str()); }
    String str() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
  }

  private static final BigInteger ONE = BigInteger.ONE;
  private static final ConcurrentHashMap<String, Big> CACHE = new ConcurrentHashMap<>();
  private static UserValue mk(Big b) { return new UserValue(b); }
  private static Big get(Value v) {
    if (v instanceof UserValue && ((UserValue) v).userObj instanceof Big) return (Big) ((UserValue) v).userObj;
    throw new RuntimeException("Rational: not a rational: " + v);
  }
  private static Big parse(String s) {
    Big b = CACHE.get(s);
    if (b != null) return b;
    int i = s.indexOf('/'), j = s.indexOf('@');
    if (i >= 0) b = Big.of(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    else if (j >= 0) {
      BigInteger m = new BigInteger(s.substring(0, j));
      int e = Integer.parseInt(s.substring(j + 1));
      b = e >= 0 ? Big.of(m.shiftLeft(e), ONE) : Big.of(m, ONE.shiftLeft(-e));
    } else b = Big.of(new BigInteger(s), ONE);
    if (CACHE.size() < 400000) CACHE.put(s, b);
    return b;
  }
  private static BigInteger floor(Big b) {
    BigInteger[] qr = b.n.divideAndRemainder(b.d);
    return qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
  }
  private static int clampInt(BigInteger f) {
    BigInteger m = BigInteger.valueOf(2000000000L);
    if (f.compareTo(m) > 0) return 2000000000;
    if (f.compareTo(m.negate()) < 0) return -2000000000;
    return f.intValue();
  }

  public static Value RInt(Value i) { return mk(new Big(BigInteger.valueOf(((IntValue) i).val), ONE)); }
  public static Value R(Value n, Value d) {
    return mk(Big.of(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val)));
  }
  public static Value RParse(Value v) {
    if (v instanceof IntValue) return RInt(v);
    if (v instanceof UserValue) return v;
    return mk(parse(((StringValue) v).val.toString()));
  }
  public static Value IsNum(Value v) {
    if (v instanceof IntValue || v instanceof UserValue) return BoolValue.ValTrue;
    if (!(v instanceof StringValue)) return BoolValue.ValFalse;
    String s = ((StringValue) v).val.toString();
    return (s.equals("nan") || s.equals("inf") || s.equals("-inf")) ? BoolValue.ValFalse : BoolValue.ValTrue;
  }
  public static Value RAdd(Value a, Value b) {
    Big x = get(a), y = get(b);
    if (x.d.equals(y.d)) return mk(Big.of(x.n.add(y.n), x.d));
    return mk(Big.of(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)));
  }
  public static Value RSub(Value a, Value b) {
    Big x = get(a), y = get(b);
    if (x.d.equals(y.d)) return mk(Big.of(x.n.subtract(y.n), x.d));
    return mk(Big.of(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)));
  }
  public static Value RMul(Value a, Value b) {
    Big x = get(a), y = get(b);
    return mk(Big.of(x.n.multiply(y.n), x.d.multiply(y.d)));
  }
  public static Value RDiv(Value a, Value b) {
    Big x = get(a), y = get(b);
    return mk(Big.of(x.n.multiply(y.d), x.d.multiply(y.n)));
  }
  public static Value RNeg(Value a) { Big x = get(a); return mk(new Big(x.n.negate(), x.d)); }
  public static Value RAbs(Value a) { Big x = get(a); return mk(new Big(x.n.abs(), x.d)); }
  public static Value RLt(Value a, Value b) { return get(a).cmp(get(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLe(Value a, Value b) { return get(a).cmp(get(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value REq(Value a, Value b) { return get(a).cmp(get(b)) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RSign(Value a) { return IntValue.gen(get(a).n.signum()); }
  public static Value RFloor(Value a) { return IntValue.gen(clampInt(floor(get(a)))); }
  public static Value RPow2(Value e) {
    int k = ((IntValue) e).val;
    return mk(k >= 0 ? new Big(ONE.shiftLeft(k), ONE) : new Big(ONE, ONE.shiftLeft(-k)));
  }
  public static Value RShow(Value a) { return new StringValue(get(a).str()); }

  // largest |entry| of a sequence of recorded numbers; remembered per sequence object
  private static final java.util.Map<Object, Big> MAXABS = java.util.Collections.synchronizedMap(new java.util.IdentityHashMap<>());
  public static Value RMaxAbs(Value seq) {
    Big m = MAXABS.get(seq);
    if (m == null) {
      m = new Big(BigInteger.ZERO, ONE);
      for (Value v : ((TupleValue) seq.toTuple()).elems)
        if (IsNum(v) == BoolValue.ValTrue) {
          Big b = get(RAbs(RParse(v)));
          if (m.cmp(b) < 0) m = b;
        }
      if (MAXABS.size() < 20000) MAXABS.put(seq, m);
    }
    return mk(m);
  }
}
