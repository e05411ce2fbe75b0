import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC replacement for the operators of spec/Fx.tla (semantics: spec/FxPure.tla). */
public class Fx {
  private static final long B4 = 10000L, B16 = 10000000000000000L;
  private static final BigInteger BB16 = BigInteger.valueOf(B16);
  private static final BigInteger S = BigInteger.valueOf(1000000000000L);
  private static final IntValue NEG = IntValue.gen(-1), ZERO = IntValue.gen(0), ONE = IntValue.gen(1);
  private static final TupleValue NAN = new TupleValue(new Value[] {IntValue.gen(2)});
  private static final TupleValue Z = new TupleValue(new Value[] {ZERO});

  private static int iv(Value v) { return ((IntValue) v).val; }

  /** null is NaN */
  private static BigInteger dec(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int s = iv(e[0]);
    if (s == 2) return null;
    if (s == 0) return BigInteger.ZERO;
    int n = e.length;
    BigInteger r = null;
    int i = n - 1;
    // most significant chunk first: chunks of 4 digits aligned at index 1
    int chunks = (n - 1 + 3) / 4;
    for (int c = chunks - 1; c >= 0; c--) {
      long x = 0;
      for (int k = Math.min(n - 1, 4 * c + 4); k >= 4 * c + 1; k--) x = x * B4 + iv(e[k]);
      BigInteger bx = BigInteger.valueOf(x);
      r = (r == null) ? bx : r.multiply(BB16).add(bx);
    }
    return s < 0 ? r.negate() : r;
  }

  private static Value enc(BigInteger b) {
    if (b == null) return NAN;
    int s = b.signum();
    if (s == 0) return Z;
    b = b.abs();
    int[] buf = new int[4 * (b.bitLength() / 53 + 2)];
    int n = 0;
    while (b.bitLength() > 62) {
      BigInteger[] qr = b.divideAndRemainder(BB16);
      long x = qr[1].longValue();
      for (int k = 0; k < 4; k++) { buf[n++] = (int) (x % B4); x /= B4; }
      b = qr[0];
    }
    long x = b.longValue();
    while (x != 0) { buf[n++] = (int) (x % B4); x /= B4; }
    while (n > 0 && buf[n - 1] == 0) n--;
    Value[] out = new Value[n + 1];
    out[0] = s < 0 ? NEG : ONE;
    for (int k = 0; k < n; k++) out[k + 1] = IntValue.gen(buf[k]);
    return new TupleValue(out);
  }

  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value FAdd(Value a, Value b) {
    BigInteger x = dec(a), y = dec(b);
    return x == null || y == null ? NAN : enc(x.add(y));
  }
  public static Value FSub(Value a, Value b) {
    BigInteger x = dec(a), y = dec(b);
    return x == null || y == null ? NAN : enc(x.subtract(y));
  }
  public static Value FNeg(Value a) { BigInteger x = dec(a); return x == null ? NAN : enc(x.negate()); }
  public static Value FAbs(Value a) { BigInteger x = dec(a); return x == null ? NAN : enc(x.abs()); }
  public static Value FMul(Value a, Value b) {
    BigInteger x = dec(a), y = dec(b);
    return x == null || y == null ? NAN : enc(x.multiply(y).divide(S));
  }
  public static Value FDiv(Value a, Value b) {
    BigInteger x = dec(a), y = dec(b);
    return x == null || y == null || y.signum() == 0 ? NAN : enc(x.multiply(S).divide(y));
  }
  public static Value FSqrt(Value a) {
    BigInteger x = dec(a);
    return x == null || x.signum() < 0 ? NAN : enc(x.multiply(S).sqrt());
  }
  public static Value FLe(Value a, Value b) {
    BigInteger x = dec(a), y = dec(b);
    return bool(x != null && y != null && x.compareTo(y) <= 0);
  }
  public static Value FLt(Value a, Value b) {
    BigInteger x = dec(a), y = dec(b);
    return bool(x != null && y != null && x.compareTo(y) < 0);
  }
  public static Value FI(Value n) { return enc(BigInteger.valueOf(iv(n)).multiply(S)); }
  public static Value FSum(Value s) {
    Value[] e = ((TupleValue) s.toTuple()).elems;
    BigInteger r = BigInteger.ZERO;
    for (Value v : e) { BigInteger x = dec(v); if (x == null) return NAN; r = r.add(x); }
    return enc(r);
  }
  public static Value FDot(Value u, Value v) {
    Value[] e = ((TupleValue) u.toTuple()).elems, f = ((TupleValue) v.toTuple()).elems;
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < e.length; i++) {
      BigInteger x = dec(e[i]), y = dec(f[i]);
      if (x == null || y == null) return NAN;
      r = r.add(x.multiply(y));
    }
    return enc(r.divide(S));
  }
  /** Largest integer <= a; only for |a| < 2^31. */
  public static Value FFloor(Value a) {
    BigInteger x = dec(a);
    BigInteger[] qr = x.divideAndRemainder(S);
    return IntValue.gen(qr[0].intValueExact() - (qr[1].signum() < 0 ? 1 : 0));
  }

  /** Elementary functions: double precision in, rounded to 12 decimals. */
  private static double dbl(BigInteger x) { return new java.math.BigDecimal(x, 12).doubleValue(); }
  private static Value fromDbl(double d) {
    if (Double.isNaN(d) || Double.isInfinite(d)) return NAN;
    return enc(new java.math.BigDecimal(d).movePointRight(12)
        .setScale(0, java.math.RoundingMode.HALF_EVEN).toBigInteger());
  }
  public static Value FSin(Value a) { BigInteger x = dec(a); return x == null ? NAN : fromDbl(StrictMath.sin(dbl(x))); }
  public static Value FCos(Value a) { BigInteger x = dec(a); return x == null ? NAN : fromDbl(StrictMath.cos(dbl(x))); }
  public static Value FExp(Value a) { BigInteger x = dec(a); return x == null ? NAN : fromDbl(StrictMath.exp(dbl(x))); }
  public static Value FLn(Value a) {
    BigInteger x = dec(a);
    return x == null || x.signum() <= 0 ? NAN : fromDbl(StrictMath.log(dbl(x)));
  }
  /** sums over i of ws[i] P_n(zs[i]), n = 0..N */
  public static Value FLegSums(Value nv, Value zs, Value ws) {
    int n = iv(nv);
    Value[] z = ((TupleValue) zs.toTuple()).elems, w = ((TupleValue) ws.toTuple()).elems;
    BigInteger[] r = new BigInteger[n + 1];
    java.util.Arrays.fill(r, BigInteger.ZERO);
    for (int i = 0; i < z.length; i++) {
      BigInteger x = dec(z[i]), y = dec(w[i]), a = S, b = x;
      for (int k = 0; k <= n; k++) {
        if (x == null || y == null) { r[k] = null; continue; }
        if (k >= 2) {
          BigInteger c = BigInteger.valueOf(2 * k - 1).multiply(x.multiply(b).divide(S))
              .subtract(BigInteger.valueOf(k - 1).multiply(a));
          a = b;
          b = c.divide(BigInteger.valueOf(k));
        }
        if (r[k] != null) r[k] = r[k].add(y.multiply(k == 0 ? S : b));
      }
    }
    Value[] out = new Value[n + 1];
    for (int k = 0; k <= n; k++) out[k] = r[k] == null ? NAN : enc(r[k].divide(S));
    return new TupleValue(out);
  }
}
