package pbt;

import java.math.BigDecimal;
import java.math.BigInteger;

/** The shortest decimal that reads back to a double, by definition and in exact arithmetic. */
final class Shortest {
  private Shortest() {}

  private static final boolean JDK_EXACT;

  static {
    String v = System.getProperty("java.specification.version");
    JDK_EXACT = !v.startsWith("1.") && Integer.parseInt(v) >= 19;
  }

  /** For non-negative finite v. Uses the platform's conversion where that one is exact. */
  static BigDecimal of(double v) {
    if (v == 0) return BigDecimal.ZERO;
    if (JDK_EXACT) return new BigDecimal(Double.toString(v));
    return byDefinition(v);
  }

  /**
   * Among all decimals that round to v (half-even): those of minimal digit count n (digit counts 1
   * and 2 treated alike), the one closest to v, an even last digit on a tie.
   */
  static BigDecimal byDefinition(double v) {
    if (v == 0) return BigDecimal.ZERO;
    long bits = Double.doubleToRawLongBits(v);
    int be = (int) (bits >>> 52) & 0x7ff;
    long m = bits & ((1L << 52) - 1);
    int q;
    if (be == 0) {
      q = -1074;
    } else {
      m |= 1L << 52;
      q = be - 1075;
    }
    // in units of 2^(q-2): value 4m, upper bound 4m+2, lower bound 4m-2 (4m-1 at a power of two)
    boolean even = (m & 1) == 0;
    BigInteger mid = BigInteger.valueOf(4 * m);
    BigInteger hi = BigInteger.valueOf(4 * m + 2);
    BigInteger lo = BigInteger.valueOf(m == (1L << 52) && be > 1 ? 4 * m - 1 : 4 * m - 2);
    int unit = q - 2;
    // scale everything to integers over a common denominator 10^k * 2^j
    int e10 = (int) Math.floor(Math.log10(v));
    for (int n = 2; n <= 17; n++) {
      BigDecimal r = tryDigits(n, e10, mid, lo, hi, unit, even);
      if (r != null) {
        return r;
      }
    }
    throw new AssertionError("no 17-digit decimal for " + v);
  }

  /** Closest n-digit candidate inside the rounding interval, or null. */
  private static BigDecimal tryDigits(
      int n, int e10, BigInteger mid, BigInteger lo, BigInteger hi, int unit, boolean even) {
    // candidates are multiples of 10^p; try the p that gives n digits and its neighbours, because
    // e10 may be off by one at powers of ten
    BigDecimal best = null;
    for (int p = e10 - n + 2; p >= e10 - n; p--) {
      BigInteger num = BigInteger.ONE;
      BigInteger den = BigInteger.ONE;
      if (unit >= 0) num = num.shiftLeft(unit);
      else den = den.shiftLeft(-unit);
      if (p >= 0) den = den.multiply(BigInteger.TEN.pow(p));
      else num = num.multiply(BigInteger.TEN.pow(-p));
      // value / 10^p = mid*num/den
      BigInteger[] qr = mid.multiply(num).divideAndRemainder(den);
      BigInteger fl = qr[0];
      BigInteger c = fl.add(BigInteger.ONE);
      boolean flIn = digitsOk(fl, n) && inside(fl, den, num, lo, hi, even);
      boolean cIn = digitsOk(c, n) && inside(c, den, num, lo, hi, even);
      BigInteger pick = null;
      if (flIn && cIn) {
        int cmp = qr[1].shiftLeft(1).compareTo(den);
        pick = cmp < 0 ? fl : cmp > 0 ? c : fl.testBit(0) ? c : fl;
      } else if (flIn) {
        pick = fl;
      } else if (cIn) {
        pick = c;
      }
      if (pick != null) {
        BigDecimal d = new BigDecimal(pick, -p);
        if (best == null) best = d;
        else best = closer(best, d, mid, unit);
      }
    }
    return best;
  }

  private static BigDecimal closer(BigDecimal a, BigDecimal b, BigInteger mid, int unit) {
    BigDecimal v = new BigDecimal(mid);
    v = unit >= 0 ? v.multiply(new BigDecimal(BigInteger.ONE.shiftLeft(unit)))
        : v.divide(new BigDecimal(BigInteger.ONE.shiftLeft(-unit)));
    return b.subtract(v).abs().compareTo(a.subtract(v).abs()) < 0 ? b : a;
  }

  private static boolean digitsOk(BigInteger c, int n) {
    if (c.signum() <= 0) return false;
    // at most n significant digits: n digits, or 10^n exactly (one digit then zeros)
    int cmp = c.compareTo(BigInteger.TEN.pow(n));
    return cmp <= 0;
  }

  /** lo <= c*den/num <= hi, the bounds included only for an even significand. */
  private static boolean inside(
      BigInteger c, BigInteger den, BigInteger num, BigInteger lo, BigInteger hi, boolean even) {
    BigInteger x = c.multiply(den);
    int a = x.compareTo(lo.multiply(num));
    int b = x.compareTo(hi.multiply(num));
    return even ? a >= 0 && b <= 0 : a > 0 && b < 0;
  }
}
