import java.math.BigInteger;
import tlc2.value.impl.*;

/** Fast versions of the operators F* of Fix.tla, which is their definition. */
public final class Fix {
  private static final int FRAC = 192;

  private static BigInteger in(final Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final int n = e.length - 1;
    if (n == 0) return BigInteger.ZERO;
    final int[] mag = new int[(n * 12 + 31) / 32];        // big-endian words built below
    long acc = 0; int bits = 0, w = 0;
    final int words = mag.length;
    for (int i = 1; i <= n; i++) {
      acc |= ((long) ((IntValue) e[i]).val) << bits;
      bits += 12;
      if (bits >= 32) { mag[words - 1 - w++] = (int) acc; acc >>>= 32; bits -= 32; }
    }
    if (bits > 0 && w < words) mag[words - 1 - w] = (int) acc;
    final byte[] b = new byte[words * 4];
    for (int i = 0; i < words; i++) {
      b[4 * i] = (byte) (mag[i] >>> 24); b[4 * i + 1] = (byte) (mag[i] >>> 16);
      b[4 * i + 2] = (byte) (mag[i] >>> 8); b[4 * i + 3] = (byte) mag[i];
    }
    return new BigInteger(((IntValue) e[0]).val, b);
  }

  private static Value out(final BigInteger x) {
    final int s = x.signum();
    if (s == 0) return new TupleValue(new Value[] {IntValue.gen(0)});
    final byte[] b = x.abs().toByteArray();               // big-endian
    final int len = x.abs().bitLength();
    final int n = (len + 11) / 12;
    final Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    int acc = 0, bits = 0, p = b.length - 1;
    for (int i = 1; i <= n; i++) {
      while (bits < 12 && p >= 0) { acc |= (b[p--] & 0xff) << bits; bits += 8; }
      e[i] = IntValue.gen(acc & 0xfff);
      acc >>>= 12; bits -= 12;
    }
    return new TupleValue(e);
  }

  private static BigInteger trunc(final BigInteger x) {    // toward zero
    return x.signum() < 0 ? x.negate().shiftRight(FRAC).negate() : x.shiftRight(FRAC);
  }

  public static Value FNeg(final Value x) { return out(in(x).negate()); }
  public static Value FAdd(final Value x, final Value y) { return out(in(x).add(in(y))); }
  public static Value FSub(final Value x, final Value y) { return out(in(x).subtract(in(y))); }
  public static Value FMul(final Value x, final Value y) { return out(trunc(in(x).multiply(in(y)))); }
  public static Value FDiv(final Value x, final Value y) { return out(in(x).shiftLeft(FRAC).divide(in(y))); }
  public static Value FCmp(final Value x, final Value y) { return IntValue.gen(in(x).compareTo(in(y))); }
  public static Value FSqrt(final Value x) { return out(in(x).shiftLeft(FRAC).sqrt()); }
  public static Value FInt(final Value n) { return out(BigInteger.valueOf(((IntValue) n).val).shiftLeft(FRAC)); }

  private static BigInteger[] vec(final Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final BigInteger[] r = new BigInteger[e.length];
    for (int i = 0; i < r.length; i++) r[i] = in(e[i]);
    return r;
  }

  public static Value FDot(final Value u, final Value v) {
    final BigInteger[] a = vec(u), b = vec(v);
    BigInteger s = BigInteger.ZERO;
    for (int i = 0; i < a.length; i++) s = s.add(trunc(a[i].multiply(b[i])));
    return out(s);
  }

  public static Value FMatMul(final Value A, final Value B) {
    final Value[] ra = ((TupleValue) A.toTuple()).elems, rb = ((TupleValue) B.toTuple()).elems;
    final BigInteger[][] a = new BigInteger[ra.length][], b = new BigInteger[rb.length][];
    for (int i = 0; i < a.length; i++) a[i] = vec(ra[i]);
    for (int i = 0; i < b.length; i++) b[i] = vec(rb[i]);
    final int n = a.length, m = b[0].length, k = b.length;
    final Value[] rows = new Value[n];
    for (int i = 0; i < n; i++) {
      final Value[] row = new Value[m];
      for (int j = 0; j < m; j++) {
        BigInteger s = BigInteger.ZERO;
        for (int l = 0; l < k; l++)
          if (a[i][l].signum() != 0 && b[l][j].signum() != 0) s = s.add(trunc(a[i][l].multiply(b[l][j])));
        row[j] = out(s);
      }
      rows[i] = new TupleValue(row);
    }
    return new TupleValue(rows);
  }
}
