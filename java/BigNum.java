import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC module override for BigNum.tla: same operators, on java.math.BigInteger. Stateless. */
public class BigNum {
  private static final long B4 = 10000L;
  private static final BigInteger B16 = BigInteger.valueOf(10000000000000000L);
  private static final BigInteger[] POW = new BigInteger[64];
  static { POW[0] = BigInteger.ONE; for (int i = 1; i < POW.length; i++) POW[i] = POW[i-1].multiply(BigInteger.valueOf(B4)); }
  private static BigInteger pow(int k) { return k < POW.length ? POW[k] : BigInteger.valueOf(B4).pow(k); }

  private static TupleValue tup(Value v) { return (TupleValue) v.toTuple(); }
  private static int iv(Value v) { return ((IntValue) v).val; }

  static BigInteger get(Value v) {
    Value[] e = tup(v).elems;
    int s = iv(e[0]);
    if (s == 0) return BigInteger.ZERO;
    if (s != 1 && s != -1) throw new RuntimeException("BigNum: arithmetic on a non-finite number " + v);
    int n = e.length - 1;
    BigInteger r = BigInteger.ZERO;
    int i = n;
    boolean first = true;
    while (i > 0) {
      int take = (i % 4 == 0) ? 4 : i % 4;
      long w = 0;
      for (int j = 0; j < take; j++) { w = w * B4 + iv(e[i - j]); }
      i -= take;
      r = first ? BigInteger.valueOf(w) : r.multiply(B16).add(BigInteger.valueOf(w));
      first = false;
    }
    return s < 0 ? r.negate() : r;
  }

  private static final IntValue M1 = IntValue.gen(-1), P1 = IntValue.gen(1), Z0 = IntValue.gen(0);
  static TupleValue put(BigInteger x) {
    int s = x.signum();
    if (s == 0) return new TupleValue(new Value[] { Z0 });
    x = x.abs();
    int cap = (int) (x.bitLength() / 13.28) + 6;
    int[] limbs = new int[cap];
    int n = 0;
    while (x.bitLength() > 53) {
      BigInteger[] qr = x.divideAndRemainder(B16);
      long w = qr[1].longValue();
      for (int j = 0; j < 4; j++) { limbs[n++] = (int) (w % B4); w /= B4; }
      x = qr[0];
    }
    long w = x.longValue();
    while (w != 0) { limbs[n++] = (int) (w % B4); w /= B4; }
    while (n > 0 && limbs[n-1] == 0) n--;
    Value[] e = new Value[n + 1];
    e[0] = s < 0 ? M1 : P1;
    for (int j = 0; j < n; j++) e[j + 1] = IntValue.gen(limbs[j]);
    return new TupleValue(e);
  }

  public static Value BNeg(final Value a) {
    int s = iv(tup(a).elems[0]);
    if (s != 1 && s != -1) return a;
    Value[] e = tup(a).elems.clone();
    e[0] = s < 0 ? P1 : M1;
    return new TupleValue(e);
  }
  public static Value BCmp(final Value a, final Value b) { return IntValue.gen(get(a).compareTo(get(b))); }
  public static Value BAdd(final Value a, final Value b) { return put(get(a).add(get(b))); }
  public static Value BSub(final Value a, final Value b) { return put(get(a).subtract(get(b))); }
  public static Value BMul(final Value a, final Value b) { return put(get(a).multiply(get(b))); }
  public static Value BDiv(final Value a, final Value b) { return put(get(a).divide(get(b))); }
  /** places 1..n from the highest to the lowest h, then T (empty: not looked at), then place */
  public static Value BOrder(final Value h, final Value t) {
    final Value[] hs = tup(h).elems, ts = tup(t).elems;
    final int n = hs.length;
    final BigInteger[] a = new BigInteger[n], b = new BigInteger[n];
    for (int i = 0; i < n; i++) { a[i] = get(hs[i]); b[i] = ts.length == 0 ? BigInteger.ZERO : get(ts[i]); }
    final Integer[] at = new Integer[n];
    for (int i = 0; i < n; i++) at[i] = i;
    java.util.Arrays.sort(at, (i, j) -> { int c = a[j].compareTo(a[i]); return c != 0 ? c : b[j].compareTo(b[i]); });
    final Value[] out = new Value[n];
    for (int i = 0; i < n; i++) out[i] = IntValue.gen(at[i] + 1);
    return new TupleValue(out);
  }
  public static Value BToInt(final Value a) { return IntValue.gen(get(a).intValueExact()); }
  public static Value BSqrt(final Value a) { return put(get(a).sqrt()); }
  public static Value BShiftUp(final Value a, final Value k) { return put(get(a).multiply(pow(iv(k)))); }
  public static Value BShiftDown(final Value a, final Value k) { return put(get(a).divide(pow(iv(k)))); }
  public static Value FMul(final Value a, final Value b) { return put(get(a).multiply(get(b)).divide(POW[8])); }
  public static Value FDiv(final Value a, final Value b) { return put(get(a).multiply(POW[8]).divide(get(b))); }
  public static Value BSum(final Value s) {
    BigInteger r = BigInteger.ZERO;
    for (Value v : tup(s).elems) r = r.add(get(v));
    return put(r);
  }
  public static Value FDot(final Value s, final Value t) {
    Value[] a = tup(s).elems, b = tup(t).elems;
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < a.length; i++) r = r.add(get(a[i]).multiply(get(b[i])));
    return put(r.divide(POW[8]));
  }
}
