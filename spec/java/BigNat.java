import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC accelerator for module BigNat; MCBigNat compares it with the TLA+ definitions. */
public class BigNat {
  private static final BigInteger[] P10 = new BigInteger[20000];
  private static BigInteger p10(int k) {
    if (k >= P10.length) return BigInteger.TEN.pow(k);
    BigInteger r = P10[k];
    if (r == null) P10[k] = r = BigInteger.TEN.pow(k);
    return r;
  }
  private static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
  private static BigInteger to(Value v) {
    Value[] e = el(v);
    int n = e.length;
    if (n <= 4) {
      long r = 0;
      for (int i = n - 1; i >= 0; i--) r = r * 10000 + ((IntValue) e[i]).val;
      return BigInteger.valueOf(r);
    }
    if (n <= 64) {
      BigInteger r = BigInteger.ZERO;
      int i = n;
      while (i > 0) {
        int k = Math.min(4, i);
        long x = 0, m = 1;
        for (int j = 0; j < k; j++) { x = x * 10000 + ((IntValue) e[--i]).val; m *= 10000; }
        r = r.multiply(BigInteger.valueOf(m)).add(BigInteger.valueOf(x));
      }
      return r;
    }
    StringBuilder sb = new StringBuilder(4 * n);
    for (int i = n - 1; i >= 0; i--) {
      int x = ((IntValue) e[i]).val;
      sb.append((char) ('0' + x / 1000)).append((char) ('0' + x / 100 % 10)).append((char) ('0' + x / 10 % 10)).append((char) ('0' + x % 10));
    }
    return new BigInteger(sb.toString());
  }
  private static Value from(BigInteger b) {
    if (b.signum() == 0) return new TupleValue(new Value[0]);
    if (b.bitLength() < 63) {
      long x = b.longValue(), y = x;
      int n = 0;
      while (y != 0) { n++; y /= 10000; }
      Value[] e = new Value[n];
      for (int i = 0; i < n; i++) { e[i] = IntValue.gen((int) (x % 10000)); x /= 10000; }
      return new TupleValue(e);
    }
    String s = b.toString();
    int n = (s.length() + 3) / 4, end = s.length();
    Value[] e = new Value[n];
    for (int i = 0; i < n; i++) {
      int st = Math.max(0, end - 4), x = 0;
      for (int j = st; j < end; j++) x = x * 10 + (s.charAt(j) - '0');
      e[i] = IntValue.gen(x);
      end = st;
    }
    return new TupleValue(e);
  }
  private static int in(Value v) { return ((IntValue) v).val; }
  private static Value pair(BigInteger[] r) { return new TupleValue(new Value[] {from(r[0]), from(r[1])}); }
  private static int digits(Value a) {
    Value[] e = el(a);
    int n = e.length;
    if (n == 0) return 0;
    int x = in(e[n - 1]);
    return (n - 1) * 4 + (x > 999 ? 4 : x > 99 ? 3 : x > 9 ? 2 : 1);
  }
  public static Value NFromInt(Value a) { return from(BigInteger.valueOf(in(a))); }
  public static Value NToInt(Value a) { return IntValue.gen(to(a).intValue()); }
  public static Value NCmp(Value a, Value b) { return IntValue.gen(to(a).compareTo(to(b))); }
  public static Value NAdd(Value a, Value b) { return from(to(a).add(to(b))); }
  public static Value NSub(Value a, Value b) { return from(to(a).subtract(to(b))); }
  public static Value NMul(Value a, Value b) { return from(to(a).multiply(to(b))); }
  public static Value NShl(Value a, Value k) { return from(to(a).multiply(p10(in(k)))); }
  public static Value NShr(Value a, Value k) {
    int d = in(k);
    if (d == 0) return new TupleValue(new Value[] {a, new TupleValue(new Value[0])});
    if (d > digits(a)) return new TupleValue(new Value[] {new TupleValue(new Value[0]), a});
    return pair(to(a).divideAndRemainder(p10(d)));
  }
  public static Value NDivMod(Value a, Value b) { return pair(to(a).divideAndRemainder(to(b))); }
  public static Value NSqrt(Value a) { return from(to(a).sqrt()); }
  public static Value NDigits(Value a) { return IntValue.gen(digits(a)); }
  public static Value NTz(Value a) {
    Value[] e = el(a);
    int i = 0;
    while (i < e.length && in(e[i]) == 0) i++;
    if (i == e.length) return IntValue.gen(0);
    int x = in(e[i]), t = 4 * i;
    while (x % 10 == 0) { x /= 10; t++; }
    return IntValue.gen(t);
  }
  public static Value NDigitSeq(Value a) {
    int n = digits(a);
    Value[] e = el(a), r = new Value[n];
    for (int i = 0; i < n; i++) {
      int x = in(e[i / 4]);
      for (int j = i % 4; j > 0; j--) x /= 10;
      r[n - 1 - i] = IntValue.gen(x % 10);
    }
    return new TupleValue(r);
  }
  public static Value NFromDigits(Value s) {
    Value[] d = el(s);
    int st = 0, n = d.length;
    while (st < n && in(d[st]) == 0) st++;
    int m = n - st, l = (m + 3) / 4;
    Value[] r = new Value[l];
    for (int j = 0; j < l; j++) {
      int x = 0, hi = n - 4 * j;
      for (int i = Math.max(st, hi - 4); i < hi; i++) x = x * 10 + in(d[i]);
      r[j] = IntValue.gen(x);
    }
    return new TupleValue(r);
  }
}
