package pbt;

import io.fastprintf.FastPrintf;
import java.math.BigDecimal;
import java.math.BigInteger;

/** C01 to C09: what numeric conversions print. */
final class NumberProps {
  private NumberProps() {}

  private static String digitsLabel(Object v) {
    if (v instanceof BigInteger) {
      int b = ((BigInteger) v).bitLength();
      return b <= 63 ? "BigInteger<=63bit" : b <= 400 ? "BigInteger<=400bit" : "BigInteger>400bit";
    }
    return v.getClass().getSimpleName();
  }

  private static void labels(Case c, Spec s, Out o) {
    c.label("conv %" + s.conv);
    c.label(s.width < 0 ? "no width" : o.ok() && ((String) o.value).length() <= s.width ? "width pads" : "width too small");
    c.label(s.prec < 0 ? "no precision" : s.prec == 0 ? "precision 0" : "precision");
    if (!o.ok()) c.label("refused");
  }

  static final class Signed extends Prop {
    Signed() {
      super("C01");
    }

    @Override
    String rule() {
      return "a conversion %d/%i with random flags, width, precision and a random integral argument "
          + "(boundary values of all types, powers of 2 and 10, mined constants) is compared with the "
          + "model; non-trivial when some flag, width or precision is present and the output differs "
          + "from the plain decimal number or the value is a type boundary";
    }

    @Override
    int quickCases() {
      return 8000000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      if (s.below(100) == 99) {
        Check.directed(c, "% .0d", 0, "%+.0d", 0, "%.0d", 0, "%5.0d", 0L, "% 5.0i", (byte) 0,
            "%-+5.0d|".substring(0, 7), (short) 0, "%d", Integer.MIN_VALUE, "%d", Long.MIN_VALUE, "%d", Byte.MIN_VALUE,
            "%d", Short.MIN_VALUE, "%020d", Long.MIN_VALUE, "% .0d", BigInteger.ZERO, "%#d", 5, "%+ 05i", 5);
        c.nontrivial();
        return;
      }
      Spec sp = G.spec(s, s.bool() ? 'i' : 'd');
      Arg a = G.intArg(s);
      Out o = Check.conv(c, sp, s.below(6), a);
      labels(c, sp, o);
      c.label(digitsLabel(a.value));
      if (o.ok() && (!o.value.equals(String.valueOf(a.value)))) c.nontrivial();
    }
  }

  static final class Unsigned extends Prop {
    Unsigned() {
      super("C02");
    }

    @Override
    String rule() {
      return "a conversion %u/%o/%x/%X with random flags, width, precision and a random integral "
          + "argument is compared with the model; non-trivial when the argument is negative or zero, or "
          + "'#', width or precision is present";
    }

    @Override
    int quickCases() {
      return 8000000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      if (s.below(100) == 99) {
        Check.directed(c, "%#05x", 0, "%#05o", 0, "%#.3o", 0, "%#.0o", 0, "%#x", 0, "%#X", 255, "%#o", 8,
            "%#.2o", 8, "%#5.0o", 0, "%#08x", -1, "%x", (byte) -1, "%o", (short) -1, "%u", -1L, "%#.0x", 0,
            "%#06.3x", 10, "%-#6o", 1, "%u", new BigInteger("-1"), "%x", new BigInteger("-1"),
            "%o", new BigInteger("-9999999999999999999"), "%#.1o", 7, "%#07.5o", 7, "%#u", 0, "%+ u", 3);
        c.nontrivial();
        return;
      }
      Spec sp = G.spec(s, s.pickChar("uoxX"));
      Arg a = G.intArg(s);
      if (a.value instanceof BigInteger && s.chance(3, 4)) a = Arg.of(((BigInteger) a.value).abs());
      Out o = Check.conv(c, sp, s.below(6), a);
      labels(c, sp, o);
      c.label(digitsLabel(a.value));
      int sg = Model.intOf(a.value).value.signum();
      if (sg == 0) c.label("zero");
      if (sg < 0) c.label("negative");
      if (sg <= 0 || sp.has(Spec.HASH) || sp.width >= 0 || sp.prec >= 0) c.nontrivial();
    }
  }

  /** C03, C04, C05: decimal conversions of binary floats. */
  static final class DecimalFloat extends Prop {
    private final String convs;
    private final Object[] directed;

    DecimalFloat(String id, String convs, Object... directed) {
      super(id);
      this.convs = convs;
      this.directed = directed;
    }

    @Override
    String rule() {
      return "a conversion out of " + convs + " with random flags, width, precision and a random finite "
          + "float or double (ties, runs of nines, powers of 2 and 10 and their neighbours, subnormals, "
          + "any bit pattern) is compared with the model; non-trivial when the value is not a small "
          + "integer";
    }

    @Override
    int quickCases() {
      return 4000000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      if (s.below(100) == 99) {
        Check.directed(c, directed);
        c.nontrivial();
        return;
      }
      Spec sp = G.spec(s, s.pickChar(convs));
      Arg a = G.floatArg(s);
      if (id.equals("C05") && s.chance(1, 2)) {
        // exponents next to the switch between the two styles
        int p = sp.prec < 0 ? 6 : Math.max(1, Math.min(sp.prec, 300));
        int e = s.bool() ? p + s.range(0, 3) - 2 : -4 + s.range(0, 3) - 2;
        String d = G.digitString(s, s.range(1, 20));
        a = new Arg(Double.parseDouble(d.charAt(0) + "." + d.substring(1) + "e" + e), s.bool());
      }
      Out o = Check.conv(c, sp, s.below(6), a);
      labels(c, sp, o);
      double v = ((Number) a.value).doubleValue();
      if (v == 0) c.label("zero");
      else c.label(Math.abs(v) < Double.MIN_NORMAL ? "subnormal" : Math.abs(v) < 1e-5 ? "tiny" : Math.abs(v) < 1 ? "below 1"
          : Math.abs(v) < 1e7 ? "ordinary" : "large");
      if (id.equals("C05") && o.ok()) c.label(((String) o.value).toLowerCase().indexOf('e') >= 0 ? "exponent style" : "fixed style");
      if (v != Math.rint(v) || Math.abs(v) > 100) c.nontrivial();
    }
  }

  static final class HexFloat extends Prop {
    HexFloat() {
      super("C06");
    }

    @Override
    String rule() {
      return "%a/%A with random flags, width, precision and a random finite float or double is compared "
          + "with the model built from the bit pattern; without precision or with 13 or more digits the "
          + "text is also parsed back and must give the identical bits; non-trivial when the significand "
          + "has fraction bits or the value is subnormal";
    }

    @Override
    int quickCases() {
      return 6000000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      if (s.below(100) == 99) {
        Check.directed(c, "%a", 0.0, "%a", -0.0, "%.0a", 1.5, "%.1a", 1.96875, "%.1a", 1.03125, "%.1a", 1.09375,
            "%.3a", Double.MAX_VALUE, "%.1A", Double.MIN_VALUE, "%a", Double.MIN_VALUE, "%020a", -1.5, "%+020.2a", 1.5,
            "%-20a", 1.5, "%.13a", 0.1, "%.12a", 0.1, "%.20a", 0.1, "%#a", 1.0, "%a", Double.MIN_NORMAL,
            "%.2a", Math.nextDown(Double.MIN_NORMAL), "%05a", -0.0, "%.5a", 0.0);
        c.nontrivial();
        return;
      }
      Spec sp = G.spec(s, s.pickChar("aA"));
      if (sp.prec > 20 && s.chance(7, 8)) sp.prec = s.range(0, 14);
      Arg a = G.floatArg(s);
      Out o = Check.conv(c, sp, s.below(6), a);
      labels(c, sp, o);
      double v = ((Number) a.value).doubleValue();
      if ((sp.prec < 0 || sp.prec >= 13) && o.ok()) {
        double back = Double.parseDouble(((String) o.value).trim());
        c.same(Double.doubleToRawLongBits(v), Double.doubleToRawLongBits(back), "parsing back " + o + " of " + a.show());
      }
      if ((Double.doubleToRawLongBits(v) << 12) != 0 || (v != 0 && Math.abs(v) < Double.MIN_NORMAL)) c.nontrivial();
    }
  }

  static final class BigDec extends Prop {
    BigDec() {
      super("C07");
    }

    @Override
    String rule() {
      return "%f %e %g (both cases) of random BigDecimal/BigInteger values (any scale for which the output can be held) are compared with the model; "
          + "a numerically equal argument with another scale must print the same; %a must be refused; "
          + "non-trivial when the value has more than 6 digits, a negative scale, trailing zeros or is a "
          + "zero with scale";
    }

    @Override
    int quickCases() {
      return 3000000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      if (s.below(100) == 99) {
        Check.directed(c, "%20g", new BigDecimal("123.4500"), "%e", new BigDecimal("1234567890"),
            "%g", new BigDecimal("999999.9"), "%g", new BigDecimal("0.00009999999"), "%.1g", new BigDecimal("9.99"),
            "%g", new BigDecimal("0.00"), "%e", new BigDecimal("0.00"), "%f", new BigDecimal("0E+5"),
            "%#g", new BigDecimal("1.5e-10"), "%#1.1g", new BigDecimal("789456123"), "%g", new BigDecimal("0.00009999995"),
            "%.0f", new BigDecimal("0.5"), "%.0f", new BigDecimal("0.49"), "%.0e", new BigDecimal("9.5"), "%#.0f", BigDecimal.ONE,
            "%g", BigInteger.TEN.pow(6), "%g", BigInteger.TEN.pow(5), "%e", BigInteger.TEN.pow(9), "%e", BigInteger.TEN.pow(10),
            "%a", BigDecimal.ONE, "%A", BigInteger.ONE, "%e", new BigDecimal("0E+7"), "%#g", new BigDecimal("0.000"),
            "%g", new BigDecimal("0E-10"), "%.3g", new BigDecimal("0.00012345"), "%f", new BigDecimal("1E+30"),
            "%.2f", new BigDecimal("-0.001"), "%.0g", new BigDecimal("95"), "%e", new BigDecimal("1E-9"), "%e", new BigDecimal("1E-10"),
            "%.3f", new BigDecimal("99.9995"), "%.1f", new BigDecimal("0.95"), "%.2f", new BigDecimal("0.995"), "%.0f", new BigDecimal("99.5"),
            "%#.12g", new BigDecimal("1E-5"), "%#g", BigInteger.TEN.pow(40));
        c.nontrivial();
        return;
      }
      Spec sp = G.spec(s, s.pickChar("fFeEgGaA"));
      Arg a = s.chance(1, 6) ? Arg.of(G.anyBigInteger(s)) : Arg.of(G.anyBigDecimal(s));
      char low = sp.lowerConv();
      if (low == 'a' && s.chance(9, 10)) {
        sp.conv = low = 'g';
      }
      if (low == 'g' && a.value instanceof BigDecimal && s.bool()) {
        int p = sp.prec < 0 ? 6 : Math.max(1, sp.prec);
        int e = s.bool() ? p + s.range(0, 3) - 2 : -4 + s.range(0, 3) - 2;
        String d = G.digitString(s, s.range(1, 20));
        a = Arg.of(new BigDecimal(d.charAt(0) + "." + d.substring(1) + "e" + e));
      }
      if (low != 'f' && s.chance(1, 60)) { // astronomically large; %f would be as long
        a = Arg.of(new BigDecimal(new BigInteger(G.digitString(s, s.range(1, 20))), s.bool() ? Integer.MIN_VALUE + s.range(0, 40) : -s.pickInt(20000, 1000000, 30000000, 2000000000) - s.range(0, 40)));
        c.label("huge exponent");
      }
      Out o = Check.conv(c, sp, s.below(6), a);
      labels(c, sp, o);
      BigDecimal v = a.value instanceof BigDecimal ? (BigDecimal) a.value : new BigDecimal((BigInteger) a.value);
      if (v.signum() == 0) c.label("zero");
      if (v.scale() < 0) c.label("negative scale");
      if (v.precision() > 6 || v.scale() < 0 || (v.signum() == 0 && v.scale() != 0)) c.nontrivial();
      if (low != 'a') {
        int shift = s.range(0, 12);
        BigDecimal eq;
        if (v.signum() == 0) eq = BigDecimal.valueOf(0, s.range(0, 12) - 6);
        else if (s.bool()) eq = v.scale() > Integer.MAX_VALUE - shift ? v : v.setScale(v.scale() + shift);
        else eq = v.scale() < Integer.MIN_VALUE + 50 ? v : v.stripTrailingZeros(); // which can overflow
        if (v.scale() > 4000) c.label("tiny");
        Arg b = Arg.of(eq);
        String f = sp.text();
        c.label("equal values compared");
        c.same(o, Out.of(() -> FastPrintf.compile(f).format(Arg.args(b))),
            Show.of(f) + " of the numerically equal " + v + " and " + eq);
      }
    }
  }

  static final class RoundTrip extends Prop {
    RoundTrip() {
      super("C08");
    }

    @Override
    String rule() {
      return "a random finite double is printed with 17 or more significant digits by %e, %g and %f; the "
          + "text must parse back to the same bits and carry exactly the digits of the shortest decimal "
          + "computed from the rounding interval in exact arithmetic; a neighbouring or unrelated larger "
          + "double must not print as a smaller number at a random precision; the negated value must print "
          + "the same digits; non-trivial when the shortest decimal has at least 3 digits";
    }

    @Override
    int quickCases() {
      return 1500000;
    }

    @Override
    int thoroughFactor() {
      return 10;
    }

    /** Every binary exponent alike, with significands of all kinds. */
    private static double swept(Src s) {
      long e = s.below(2047);
      return Double.longBitsToDouble(e << 52 | (s.bits() & ((1L << 52) - 1)));
    }

    private static String run(Case c, String f, double v) {
      Out o = Out.of(() -> FastPrintf.compile(f).format(Args1.of(v)));
      c.ok(o.ok(), Show.of(f) + " of " + Show.of(v) + " " + o);
      return (String) o.value;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      double v = Math.abs(s.chance(1, 4) ? Hard.pick(s) : s.chance(1, 4) ? swept(s) : G.finite(s));
      int extra = s.chance(1, 8) ? s.range(0, 300) : s.range(0, 8);
      int form = s.below(3);
      BigDecimal sh = Shortest.byDefinition(v).stripTrailingZeros();
      String f;
      if (form == 0) f = "%." + (16 + extra) + "e";
      else if (form == 1) f = "%." + (17 + extra) + "g";
      else f = "%." + (Math.max(0, sh.scale()) + extra) + "f";
      c.key(f);
      c.key(Double.doubleToRawLongBits(v));
      c.describe(() -> Show.of(f) + " of " + Show.of(v) + ", shortest decimal " + sh);
      c.label("form " + f.charAt(f.length() - 1));
      c.label("digits " + sh.precision());
      if (sh.precision() >= 3) c.nontrivial();
      String t = run(c, f, v);
      double back = Double.parseDouble(t);
      c.same(Double.doubleToRawLongBits(v), Double.doubleToRawLongBits(back), "parsing back " + Show.of(t));
      c.ok(new BigDecimal(t).compareTo(sh) == 0, Show.of(f) + " of " + Show.of(v) + " prints " + Show.of(t)
          + ", but the shortest decimal is " + sh);
      // sign independence
      c.same("-" + t, run(c, f, -v), Show.of(f) + " of the negated " + Show.of(v));
      // monotone
      double w = s.bool() ? Math.nextUp(v) : s.bool() ? G.nudge(s, v) : Math.abs(G.finite(s));
      if (Double.isInfinite(w) || w < 0 || w == 0) w = 1;
      double lo = Math.min(v, w);
      double hi = Math.max(v, w);
      String fm = "%." + s.range(0, 20) + s.pickChar("feg");
      String a = run(c, fm, lo);
      String b = run(c, fm, hi);
      c.ok(new BigDecimal(a).compareTo(new BigDecimal(b)) <= 0, "not monotone: " + Show.of(fm) + " of " + Show.of(lo)
          + " prints " + a + ", of the larger " + Show.of(hi) + " prints " + b);
    }
  }

  private static final class Args1 {
    static io.fastprintf.Args of(double v) {
      return io.fastprintf.Args.create().putDouble(v);
    }
  }

  static final class Specials extends Prop {
    Specials() {
      super("C09");
    }

    @Override
    String rule() {
      return "f F e E g G a A with random flags, width, precision and NaN (any bit pattern), an infinity "
          + "or a zero of either sign, from float, double, text or number object, compared with the model; "
          + "every case is non-trivial";
    }

    @Override
    int quickCases() {
      return 3000000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      c.nontrivial();
      if (s.below(100) == 99) {
        Check.directed(c, "% f", Double.POSITIVE_INFINITY, "% 012e", Double.POSITIVE_INFINITY, "%+g", Double.POSITIVE_INFINITY,
            "%05f", Double.NaN, "% f", Double.NaN, "%+E", Double.NaN, "%-12G|".substring(0, 5), Double.NEGATIVE_INFINITY,
            "%012a", Double.NEGATIVE_INFINITY, "%f", -0.0, "%e", -0.0, "%g", -0.0, "%a", -0.0, "%+f", 0.0, "%010g", -0.0,
            "% A", Double.POSITIVE_INFINITY, "%#.3g", -0.0);
        return;
      }
      Spec sp = G.spec(s, s.pickChar("fFeEgGaA"));
      Arg a;
      if (s.chance(1, 4)) {
        boolean prim = s.bool();
        a = s.pick(new Arg(0.0, prim), new Arg(-0.0, prim), new Arg(0f, prim), new Arg(-0f, prim), Arg.of("-0"), Arg.of("-0.0"));
        c.label("zero");
        if (s.chance(1, 2)) {
          // negative zero prints like zero, with a minus sign
          Spec bare = sp.withWidth(-1).withFlags(sp.flags & Spec.HASH);
          String f = bare.text();
          c.key(f);
          c.describe(() -> Show.of(f) + " of 0.0 and -0.0");
          c.same(Out.text("-" + Out.of(() -> FastPrintf.compile(f).format(0.0)).value), Out.of(() -> FastPrintf.compile(f).format(-0.0)),
              Show.of(f) + " of -0.0 is not '-' plus the text of 0.0");
          return;
        }
      } else {
        a = G.specialFloat(s);
        c.label("non-finite");
      }
      labels(c, sp, Check.conv(c, sp, s.below(6), a));
    }
  }
}
