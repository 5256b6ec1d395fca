package pbt;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;

/**
 * Doubles that are hard to convert: for every binary exponent, those whose neighbourhood boundary or
 * whose own value lies closest to a short decimal or to the middle of two, found with continued
 * fractions. An error in the last bits of a power-of-ten table shows first on these.
 */
final class Hard {
  private Hard() {}

  private static final class Holder {
    static final double[] ALL = build();
  }

  static int count() {
    return Holder.ALL.length;
  }

  static double at(int i) {
    return Holder.ALL[i];
  }

  static double pick(Src s) {
    return Holder.ALL[s.below(Holder.ALL.length)];
  }

  private static final BigInteger LO = BigInteger.ONE.shiftLeft(53);
  private static final BigInteger HI = BigInteger.ONE.shiftLeft(54);

  private static double[] build() {
    List<Double> out = new ArrayList<>();
    for (int q = -1074; q <= 971; q++) {
      int k = (int) Math.floor(q * Math.log10(2));
      for (int e = k; e <= k + 1; e++) {
        // 2^(q-1) / 10^e
        BigInteger num = BigInteger.ONE;
        BigInteger den = BigInteger.ONE;
        if (q - 1 >= 0) num = num.shiftLeft(q - 1);
        else den = den.shiftLeft(1 - q);
        if (e >= 0) den = den.multiply(BigInteger.TEN.pow(e));
        else num = num.multiply(BigInteger.TEN.pow(-e));
        search(out, q, num, den, true);
        search(out, q, num.shiftLeft(1), den, false);
      }
    }
    double[] r = new double[out.size()];
    for (int i = 0; i < r.length; i++) r[i] = out.get(i);
    return r;
  }

  /**
   * Multipliers a for which a * num / den is very close to an integer. With boundary set a is twice
   * the significand plus or minus one, otherwise twice the significand itself.
   */
  private static void search(List<Double> out, int q, BigInteger num, BigInteger den, boolean boundary) {
    BigInteger a = num;
    BigInteger b = den;
    BigInteger k0 = BigInteger.ONE; // denominators of the convergents
    BigInteger k1 = BigInteger.ZERO;
    while (b.signum() != 0) {
      BigInteger[] qr = a.divideAndRemainder(b);
      BigInteger k2 = k1.multiply(qr[0]).add(k0);
      if (k2.compareTo(HI) >= 0) break;
      k0 = k1;
      k1 = k2;
      a = b;
      b = qr[1];
    }
    if (k1.signum() == 0) return;
    int found = 0;
    for (int s = 0; s < 4 && found < 6; s++) {
      BigInteger from = k0.multiply(BigInteger.valueOf(s));
      BigInteger t = LO.subtract(from).add(k1).subtract(BigInteger.ONE).divide(k1).max(BigInteger.ONE);
      for (int j = 0; j < 4; j++) {
        BigInteger m = from.add(k1.multiply(t.add(BigInteger.valueOf(j))));
        if (m.compareTo(HI) >= 0) break;
        if (add(out, q, m, boundary)) found++;
      }
    }
    // smaller multiples matter for subnormal numbers
    if (q == -1074) {
      for (int j = 1; j < 40; j++) add(out, q, k1.multiply(BigInteger.valueOf(j)), boundary);
      for (int j = 1; j < 40; j++) add(out, q, k0.multiply(BigInteger.valueOf(j)), boundary);
    }
  }

  private static boolean add(List<Double> out, int q, BigInteger m, boolean boundary) {
    if (boundary) {
      if (!m.testBit(0)) return false;
      significand(out, q, m.subtract(BigInteger.ONE).shiftRight(1));
      significand(out, q, m.add(BigInteger.ONE).shiftRight(1));
      return true;
    }
    if (m.testBit(0)) return false;
    return significand(out, q, m.shiftRight(1));
  }

  private static boolean significand(List<Double> out, int q, BigInteger c) {
    long v = c.longValue();
    if (c.signum() <= 0 || c.bitLength() > 53 || q > -1074 && c.bitLength() < 53) return false;
    out.add(Math.scalb((double) v, q)); // exact
    return true;
  }
}
