package pbt;

import io.fastprintf.seq.Seq;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.CharBuffer;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.time.OffsetDateTime;
import java.time.ZoneId;
import java.time.ZoneOffset;
import java.time.ZonedDateTime;
import java.util.Arrays;
import java.util.Calendar;
import java.util.Collections;
import java.util.Date;
import java.util.GregorianCalendar;
import java.util.TimeZone;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** Generators of values, widths, flags, texts. */
final class G {
  private G() {}

  // ---------------------------------------------------------------- numbers

  static long dictLong(Src s) {
    if (Dict.novelLongs.length > 0 && s.chance(1, 2)) {
      return Dict.novelLongs[s.below(Dict.novelLongs.length)];
    }
    return Dict.longs.length == 0 ? s.below(64) : Dict.longs[s.below(Dict.longs.length)];
  }

  static long anyLong(Src s) {
    switch (s.weighted(20, 12, 12, 8, 10, 10, 8, 6, 6)) {
      case 0:
        return s.range(0, 20) * (s.bool() ? -1L : 1L);
      case 1: { // around powers of two
        long p = 1L << s.below(64);
        return (s.bool() ? -p : p) + s.range(0, 4) - 2;
      }
      case 2: { // around powers of ten
        long p = 1;
        for (int k = s.below(19); k > 0; k--) p *= 10;
        return (s.bool() ? -p : p) + s.range(0, 4) - 2;
      }
      case 3:
        return dictLong(s) * (s.bool() ? -1 : 1) + s.range(0, 2) - 1;
      case 4:
        return s.pick(0L, 1L, -1L, (long) Byte.MIN_VALUE, (long) Byte.MAX_VALUE, 255L, 256L,
            (long) Short.MIN_VALUE, (long) Short.MAX_VALUE, 65535L, 65536L,
            (long) Integer.MIN_VALUE, (long) Integer.MAX_VALUE, 4294967295L, 4294967296L,
            Long.MIN_VALUE, Long.MAX_VALUE, Long.MIN_VALUE + 1);
      case 5: { // random magnitude
        long v = s.bits() >>> s.below(64);
        return s.bool() ? -v : v;
      }
      case 6: { // one digit repeated
        long v = 0;
        int d = s.range(1, 9);
        for (int k = s.range(1, 18); k > 0; k--) v = v * 10 + d;
        return s.bool() ? -v : v;
      }
      case 7:
        return s.range(-1000, 100000);
      default:
        return s.bits();
    }
  }

  static BigInteger anyBigInteger(Src s) {
    BigInteger v = plainBigInteger(s);
    return s.chance(1, 24) ? new Kinds.OwnInteger(v) : v;
  }

  private static BigInteger plainBigInteger(Src s) {
    BigInteger v;
    if (s.chance(1, 100000)) {
      int n = huge(s, 1 << 17);
      switch (s.below(4)) {
        case 0:
          v = bits(s, n);
          break;
        case 1:
          v = BigInteger.TEN.pow(n / 4).add(BigInteger.valueOf(s.range(0, 1000) - 500));
          break;
        case 2:
          v = bits(s, s.range(1, 2000)).multiply(BigInteger.TEN.pow(n / 4)).add(bits(s, n / 2 + 1));
          break;
        default:
          v = BigInteger.ONE.shiftLeft(n).add(BigInteger.valueOf(s.range(0, 4) - 2));
      }
      return s.bool() ? v.negate() : v;
    }
    switch (s.weighted(30, 15, 15, 20, 6, 14)) {
      case 0:
        return BigInteger.valueOf(anyLong(s));
      case 1:
        v = BigInteger.ONE.shiftLeft(s.range(0, 400)).add(BigInteger.valueOf(s.range(0, 4) - 2));
        break;
      case 2:
        v = BigInteger.TEN.pow(s.range(0, 120)).add(BigInteger.valueOf(s.range(0, 4) - 2));
        break;
      case 3:
        v = bits(s, s.range(1, 300));
        break;
      case 4:
        v = bits(s, s.range(300, 4000));
        break;
      default:
        v = new BigInteger(digitString(s, s.range(1, 45)));
        break;
    }
    return s.bool() ? v.negate() : v;
  }

  private static BigInteger bits(Src s, int n) {
    java.util.SplittableRandom r = new java.util.SplittableRandom(s.choose(0xFFFF));
    byte[] b = new byte[n / 8 + 1];
    for (int i = 0; i < b.length; i++) b[i] = (byte) r.nextInt();
    return new BigInteger(1, b).shiftRight(Math.max(0, b.length * 8 - n));
  }

  /** Decimal digits with runs of 9s, 0s, 4s and 5s, which is where rounding goes wrong. */
  static String digitString(Src s, int n) {
    StringBuilder sb = new StringBuilder();
    int mode = s.below(6);
    int run = s.below(n + 1);
    long r = mode <= 1 ? s.bits() : 0;
    for (int i = 0; i < n; i++) {
      char c;
      switch (mode) {
        case 0:
        case 1:
          c = (char) ('0' + Math.floorMod(Case.mix(r + i), 10));
          break;
        case 2:
          c = i < run ? '9' : '0';
          break;
        case 3:
          c = i == 0 ? '1' : i == n - 1 ? '5' : i < run ? '9' : '0';
          break;
        case 4:
          c = i < run ? '4' : '9';
          break;
        default:
          c = i < run ? "1234567890".charAt(i % 10) : i == run ? '5' : '0';
          break;
      }
      sb.append(c);
    }
    return sb.toString();
  }

  static double nudge(Src s, double v) {
    int k = s.range(0, 6) - 3;
    for (; k > 0; k--) v = Math.nextUp(v);
    for (; k < 0; k++) v = Math.nextDown(v);
    return v;
  }

  /** A finite double, often at a rounding, exponent or representation boundary. */
  static double finite(Src s) {
    double v = finite0(s);
    if (Double.isNaN(v) || Double.isInfinite(v)) return Double.MAX_VALUE;
    return s.bool() ? -v : v;
  }

  private static double finite0(Src s) {
    switch (s.weighted(8, 10, 10, 14, 8, 6, 6, 5, 10, 4, 5, 4, 10, 4)) {
      case 13:
        return Hard.pick(s);
      case 0:
        return s.range(0, 30);
      case 1: // short decimal
        return Double.parseDouble(s.range(0, 99999) + "e" + (s.range(0, 16) - 10));
      case 2: // decimal tie d.ddd5
        return Double.parseDouble(s.range(0, 99999) + "5e" + (s.range(0, 14) - 12));
      case 3: { // digit patterns over the usual exponents
        String d = digitString(s, s.range(1, 18));
        return Double.parseDouble(d.charAt(0) + "." + d.substring(1) + "e" + (s.range(0, 40) - 18));
      }
      case 4: // around powers of ten
        return nudge(s, Double.parseDouble("1e" + (s.chance(1, 4) ? s.range(0, 631) - 323 : s.range(0, 44) - 22)));
      case 5: // around powers of two
        return nudge(s, Math.scalb(1.0, s.chance(1, 3) ? s.range(0, 2097) - 1074 : s.range(0, 140) - 70));
      case 6: // subnormal
        return Double.longBitsToDouble(s.bits() & ((1L << 52) - 1) >>> s.below(52));
      case 7:
        return nudge(s, s.pick(0.0, Double.MIN_VALUE, Double.MIN_NORMAL, Double.MAX_VALUE,
            9007199254740992.0, 9.223372036854775807e18, 1e16, 1e17, 1e22, 1e23, 2147483647.0, 4294967296.0,
            0.1, 0.5, 0.3, 1.0 / 3, 123456.5, 999999.5, 9.9999995, 0.00009999995, 0.0001));
      case 8: // any bit pattern
        return Math.abs(Double.longBitsToDouble(s.bits()));
      case 9: // sparse significand: half-way cases of hex rounding
        {
          long frac = 0;
          for (int k = s.range(0, 4); k > 0; k--) frac |= 1L << s.below(52);
          if (s.bool()) frac ^= ((1L << 52) - 1) & (-1L << s.below(52));
          long e = s.chance(1, 5) ? s.below(2047) : s.range(1000, 1050);
          return Double.longBitsToDouble(e << 52 | frac);
        }
      case 10:
        return (double) Math.abs((float) finite0(s));
      case 11:
        if (Dict.novelDoubles.length > 0 && s.bool()) {
          return nudge(s, Math.abs(Dict.novelDoubles[s.below(Dict.novelDoubles.length)]));
        }
        if (Dict.doubles.length > 0 && s.bool()) {
          return nudge(s, Math.abs(Dict.doubles[s.below(Dict.doubles.length)]));
        }
        return nudge(s, Math.abs((double) anyLong(s)));
      default: { // full-length significand at ordinary magnitude
        long e = s.range(1023 - 30, 1023 + 60);
        return Double.longBitsToDouble(e << 52 | (s.bits() & ((1L << 52) - 1)));
      }
    }
  }

  static BigDecimal anyBigDecimal(Src s) {
    BigDecimal v = plainBigDecimal(s);
    return s.chance(1, 24) ? new Kinds.OwnDecimal(v) : v;
  }

  private static BigDecimal plainBigDecimal(Src s) {
    int kind = s.weighted(40, 15, 10, 10, 10, 15, 2);
    String digits;
    switch (kind) {
      case 0:
        digits = digitString(s, s.range(1, 25));
        break;
      case 1:
        digits = Integer.toString(s.range(0, 2000));
        break;
      case 2:
        return new BigDecimal(BigInteger.ZERO, scale(s));
      case 3:
        digits = digitString(s, s.range(1, 8)) + Model.rep('0', s.range(0, 12));
        break;
      case 4:
        digits = anyBigInteger(s).abs().toString();
        break;
      case 5: {
        BigDecimal v = new BigDecimal(finite(s));
        return s.bool() ? v : new BigDecimal(shortText(v.doubleValue()));
      }
      default:
        if (s.chance(1, 500)) return new BigDecimal(s.bool() ? bits(s, huge(s, 1 << 16)) : BigInteger.TEN.pow(huge(s, 1 << 14)).add(BigInteger.valueOf(s.range(0, 9))), s.bool() ? scale(s) : huge(s, 1 << 15));
        digits = digitString(s, s.range(200, 1500));
        break;
    }
    BigInteger u = new BigInteger(digits);
    return new BigDecimal(s.bool() ? u.negate() : u, scale(s));
  }

  private static int scale(Src s) {
    switch (s.weighted(60, 20, 10, 4, 1, 1)) {
      case 5: // far below one
        return s.chance(1, 6) ? Integer.MAX_VALUE - s.range(0, 40) : s.pickInt(20000, 100000, 1000000, 30000000, 2000000000) + s.range(0, 40);
      case 0:
        return s.range(0, 16);
      case 1:
        return -s.range(0, 16);
      case 2:
        return s.range(0, 80) - 40;
      case 3:
        return s.range(0, 800) - 400;
      default:
        return s.range(0, 8000) - 4000;
    }
  }

  // ---------------------------------------------------------------- specs

  static int flags(Src s) {
    return s.below(32);
  }

  /** -1 for none; mostly small. */
  static int width(Src s) {
    switch (s.weighted(30, 40, 18, 8, 3, 1)) {
      case 0:
        return -1;
      case 1:
        return s.range(0, 24);
      case 2:
        return s.range(20, 80);
      case 3:
        return dictSize(s, 2000);
      case 4:
        return s.range(80, 600);
      default:
        return s.range(600, 5000);
    }
  }

  static int prec(Src s) {
    switch (s.weighted(30, 45, 12, 8, 3, 1)) {
      case 0:
        return -1;
      case 1:
        return s.range(0, 12);
      case 2:
        return s.range(12, 40);
      case 3:
        return dictSize(s, 1200);
      case 4:
        return s.range(40, 400);
      default:
        return s.range(400, 1500);
    }
  }

  /** A size near some constant of the library, at most max. */
  static int dictSize(Src s, int max) {
    long v = Math.abs(dictLong(s)) + s.range(0, 2) - 1;
    if (v < 0 || v > max) return s.range(0, 70);
    return (int) v;
  }

  /** A size far above the usual ones, at every order of magnitude alike. */
  static int huge(Src s, int max) {
    int k = s.range(11, 31 - Integer.numberOfLeadingZeros(max));
    switch (s.below(4)) {
      case 0:
        return Math.min(max, (1 << k) + s.range(0, 2) - 1);
      case 1: {
        int d = dictSize(s, max);
        if (d > 1000) return d;
      }
      default:
        return Math.min(max, (1 << k) + s.below(1 << k));
    }
  }

  static Spec spec(Src s, char conv) {
    Spec r = new Spec();
    r.conv = conv;
    r.flags = flags(s);
    r.width = width(s);
    r.prec = prec(s);
    return r;
  }

  // ---------------------------------------------------------------- text

  private static final String[] ALPHABETS = {
    "abcdefghijklmnopqrstuvwxyz",
    "aZzA09 _-",
    "aAzZ{}`[@%\\'\"\n\r\t\0",
    "aéßıİµÿſσςёաაﬁz",
    "x😀𐀀\udfff́‍﻿￿￾\u0000y",
    "٠१１ａｚⅰⓐẞǅk",
    "0123456789+-.eE",
  };

  private static final int[] LENGTHS = {
    15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025
  };

  static int length(Src s) {
    switch (s.weighted(60, 18, 10, 9, 2, 1)) {
      case 0:
        return s.range(0, 12);
      case 1:
        return s.range(8, 40);
      case 2:
        return s.pickInt(LENGTHS);
      case 3:
        return dictSize(s, 3000);
      case 4:
        return s.range(40, 400);
      default:
        return s.range(400, 6000);
    }
  }

  static String text(Src s) {
    if (s.chance(1, 25) && Dict.strings.length > 0) {
      String t = Dict.novelStrings.length > 0 && s.bool()
          ? Dict.novelStrings[s.below(Dict.novelStrings.length)]
          : Dict.strings[s.below(Dict.strings.length)];
      return s.bool() ? t : textOf(s, s.range(0, 5)) + t + textOf(s, s.range(0, 5));
    }
    return textOf(s, length(s));
  }

  static String textOf(Src s, int n) {
    if (n == 0) return "";
    char[] c = new char[n];
    int mode = s.below(11);
    if (mode == 10) { // characters occurring as constants in the library
      long r = s.bits();
      char fixed = dictChar(s, s.bits());
      boolean mono = s.bool();
      for (int i = 0; i < n; i++) c[i] = mono ? fixed : dictChar(s, Case.mix(r + i));
      if (!mono && n > 1) c[s.below(n)] = fixed;
      return new String(c);
    }
    if (mode >= 8) { // any UTF-16 unit
      if (n <= 12) for (int i = 0; i < n; i++) c[i] = (char) s.choose(0xFFFF);
      else {
        long r = s.bits();
        for (int i = 0; i < n; i++) c[i] = (char) Case.mix(r + i);
      }
      return new String(c);
    }
    String abc = mode == 7 ? "aZ" : ALPHABETS[mode];
    if (n <= 12) {
      for (int i = 0; i < n; i++) c[i] = s.pickChar(abc);
    } else {
      long r = s.bits();
      boolean mix = s.chance(1, 3);
      for (int i = 0; i < n; i++) {
        String x = mix ? ALPHABETS[(int) Math.floorMod(Case.mix(r - i), (long) ALPHABETS.length)] : abc;
        c[i] = x.charAt((int) Math.floorMod(Case.mix(r + i), (long) x.length()));
      }
    }
    return new String(c);
  }

  private static char dictChar(Src s, long r) {
    long[] from = Dict.novelLongs.length > 0 && (r & 4096) != 0 ? Dict.novelLongs : Dict.longs;
    if (from.length == 0) return 'k';
    long v = from[(int) Math.floorMod(r >>> 13, (long) from.length)];
    return v >= 0 && v <= 0xFFFF ? (char) v : (char) ('a' + Math.floorMod(v, 26L));
  }

  /** The text as one of many character-sequence types. */
  static CharSequence chars(Src s, String t) {
    switch (s.below(10)) {
      default:
        return t;
      case 3:
        return new StringBuilder(t);
      case 4:
        return new StringBuffer(t);
      case 5:
        return CharBuffer.wrap(t);
      case 6:
        return new Kinds.Cs(t);
      case 7:
        return Seq.wrap(t);
      case 8: { // composite rope
        int k = s.below(t.length() + 1);
        int m = s.range(0, t.length() - k) + k;
        return Seq.wrap(t, 0, k).append(Seq.wrap(t, k, m)).append(Seq.wrap(t, m, t.length()));
      }
      case 9: {
        char[] c = ("ab" + t + "cd").toCharArray();
        return s.bool() ? CharBuffer.wrap(c, 2, t.length()) : Seq.forArray(c, 2, t.length());
      }
    }
  }

  // ---------------------------------------------------------------- arguments

  /** An integer of any integral type. */
  static Arg intArg(Src s) {
    boolean prim = s.bool();
    switch (s.below(6)) {
      case 0:
        return new Arg((int) anyLong(s), prim);
      case 1:
        return new Arg(anyLong(s), prim);
      case 2:
        return new Arg((byte) (s.bool() ? s.below(256) : anyLong(s)), prim);
      case 3:
        return new Arg((short) (s.bool() ? s.below(65536) : anyLong(s)), prim);
      default:
        return Arg.of(anyBigInteger(s));
    }
  }

  /** A finite float or double. */
  static Arg floatArg(Src s) {
    boolean prim = s.bool();
    double v = finite(s);
    if (s.chance(1, 6)) {
      float f = (float) v;
      return new Arg(Float.isInfinite(f) ? Float.MAX_VALUE : f, prim);
    }
    return new Arg(v, prim);
  }

  static Arg specialFloat(Src s) {
    boolean prim = s.bool();
    switch (s.below(7)) {
      case 0:
        return new Arg(Double.NaN, prim);
      case 1:
        return new Arg(Double.POSITIVE_INFINITY, prim);
      case 2:
        return new Arg(Double.NEGATIVE_INFINITY, prim);
      case 3:
        return new Arg(Float.NaN, prim);
      case 4:
        return new Arg(s.bool() ? Float.POSITIVE_INFINITY : Float.NEGATIVE_INFINITY, prim);
      case 5: // other NaN bit patterns
        return new Arg(Double.longBitsToDouble((s.bool() ? 0xFFFL : 0x7FFL) << 52 | (s.bits() >>> 13) | 1), prim);
      default: // text and number objects that denote them
        return Arg.of(s.pick((Object) "NaN", "Infinity", "-Infinity", "+Infinity",
            new Kinds.Num(1, Double.NaN, 1), new Kinds.Num(1, Double.NEGATIVE_INFINITY, 1)));
    }
  }

  /** Something for %s. */
  static Arg textArg(Src s) {
    switch (s.weighted(60, 8, 4, 6, 6, 8, 8)) {
      case 0:
        return Arg.of(chars(s, text(s)));
      case 1:
        return Arg.of(new Kinds.Obj(text(s)));
      case 2:
        return Arg.of(null);
      case 3:
        return new Arg(s.bool(), s.bool());
      case 4:
        return new Arg((char) s.choose(0xFFFF), s.bool());
      case 5:
        return intArg(s);
      default:
        return otherObject(s);
    }
  }

  /** The length of an array. */
  private static int items(Src s) {
    if (s.chance(1, 40)) return s.chance(1, 4) ? s.range(100, 2000) : s.range(10, 100);
    return s.range(0, 5);
  }

  /** Objects that are no numbers, no text and no moments. */
  static Arg otherObject(Src s) {
    int n = items(s);
    long r = n > 5 ? s.bits() : 0;
    switch (s.below(20)) {
      case 16:
        return Arg.of(Kinds.number(s));
      case 17:
        return timeArg(s, true);
      case 18: {
        Object[] x = {new int[n][2], new Object[][] {{1}, null, {}}, new String[0][0], new char[][] {{'a'}}, new byte[1][n]};
        return Arg.of(s.pick(x));
      }
      case 0:
        return Arg.of(new Kinds.Obj(text(s)));
      case 1:
        return Arg.of(Arrays.asList(1, "two", 3.5));
      case 2:
        return Arg.of(s.pick(java.math.RoundingMode.values()));
      case 3: {
        byte[] b = new byte[s.bool() ? n : s.range(0, 9)];
        for (int i = 0; i < b.length; i++) b[i] = (byte) (n > 5 ? Case.mix(r + i) : s.below(256));
        return Arg.of(b);
      }
      case 4:
        return Arg.of(text(s).toCharArray());
      case 5: {
        int[] x = new int[n];
        for (int i = 0; i < n; i++) x[i] = (int) (n > 5 ? Case.mix(r + i) : anyLong(s));
        return Arg.of(x);
      }
      case 6: {
        Object[] x = new Object[n];
        for (int i = 0; i < n; i++) {
          switch (n > 5 ? (int) Math.floorMod(Case.mix(r + i), 5L) : s.below(7)) {
            case 0:
              x[i] = i;
              break;
            case 1:
              break;
            case 2:
              x[i] = new Kinds.Obj("o");
              break;
            case 3:
              x[i] = "";
              break;
            case 4:
              x[i] = ", ";
              break;
            case 5:
              x[i] = chars(s, text(s));
              break;
            default:
              x[i] = s.bool() ? new BigDecimal("1E+3") : s.bool();
          }
        }
        return Arg.of(x);
      }
      case 7: {
        long[] x = new long[n];
        for (int i = 0; i < n; i++) x[i] = n > 5 ? Case.mix(r + i) : anyLong(s);
        return Arg.of(x);
      }
      case 8: {
        boolean[] x = new boolean[n];
        for (int i = 0; i < n; i++) x[i] = n > 5 ? Case.mix(r + i) > 0 : s.bool();
        return Arg.of(x);
      }
      case 9: {
        short[] x = new short[n];
        for (int i = 0; i < n; i++) x[i] = (short) (n > 5 ? Case.mix(r + i) : anyLong(s));
        return Arg.of(x);
      }
      case 10: {
        double[] x = new double[n];
        for (int i = 0; i < n; i++) x[i] = n > 5 ? i * 0.5 : s.pick(0.5, 1e10, -0.0, Double.NaN, 100.25, Double.NEGATIVE_INFINITY, 1e-3, 1e-4, -7.0);
        return Arg.of(x);
      }
      case 11: {
        String[] x = new String[n];
        for (int i = 0; i < n; i++) x[i] = n > 5 ? "s" + i : s.chance(1, 6) ? null : text(s);
        return Arg.of(x);
      }
      case 12: {
        float[] x = new float[n];
        for (int i = 0; i < n; i++) x[i] = n > 5 ? i * 0.25f : s.pick(1.5f, -0f, 1e10f, Float.NaN, 3f);
        return Arg.of(x);
      }
      case 13: {
        Object[] x = n == 0 ? new Object[0] : s.bool() ? new Integer[] {1, null, -7} : new StringBuilder[] {new StringBuilder("b"), null};
        return Arg.of(x);
      }
      case 14:
        return Arg.of(Kinds.face(s, text(s)));
      case 15:
        return Arg.of(Kinds.sundry(s));
      default:
        return Arg.of(Collections.singletonMap("k", s.range(0, 9)));
    }
  }

  static Arg charArg(Src s) {
    switch (s.below(8)) {
      case 0:
      case 1:
        return new Arg((char) (s.bool() ? s.range(32, 126) : s.choose(0xFFFF)), s.bool());
      case 2: {
        String t = text(s);
        return Arg.of(chars(s, t.isEmpty() ? "q" : t));
      }
      case 3:
        return new Arg((int) (s.bool() ? s.range(0, 70000) : anyLong(s)), s.bool());
      case 4:
        return new Arg(anyLong(s), s.bool());
      case 5:
        return new Arg((byte) s.below(256), s.bool());
      case 6:
        return new Arg((short) s.below(65536), s.bool());
      default:
        return s.bool() ? Arg.of(anyBigInteger(s)) : new Arg(s.bool(), s.bool());
    }
  }

  // ---------------------------------------------------------------- date and time

  static long epochSecond(Src s) {
    switch (s.below(6)) {
      case 0:
        return s.range(0, 100000);
      case 1:
        return s.choose(4294967295L);
      case 2:
        return -s.choose(4294967295L);
      case 3:
        return s.choose(4102444800L) / 86400 * 86400 - s.range(0, 2);
      case 4:
        return s.choose(200000000000L) - 100000000000L;
      default:
        return 1600000000L + s.choose(200000000L);
    }
  }

  static int nano(Src s) {
    switch (s.below(5)) {
      case 0:
        return 0;
      case 1:
        return s.range(0, 999) * 1000000;
      case 2:
        return s.range(0, 999999) * 1000;
      case 3:
        return s.pickInt(1, 999999999, 500000000, 999999, 1000000);
      default:
        return s.range(0, 999999999);
    }
  }

  private static final String[] ZONES = {
    "UTC", "America/St_Johns", "Asia/Kathmandu", "Europe/Berlin", "Pacific/Apia", "America/New_York"
  };

  static Instant instant(Src s) {
    return Instant.ofEpochSecond(epochSecond(s), nano(s));
  }

  static ZoneOffset offset(Src s) {
    return s.bool() ? ZoneOffset.UTC : ZoneOffset.ofTotalSeconds(s.range(-18 * 4, 18 * 4) * 900);
  }

  /** A moment or date of any supported type. allMoments: only values that denote an instant. */
  static Arg timeArg(Src s, boolean allMoments) {
    Instant i = instant(s);
    switch (s.below(allMoments ? 7 : 10)) {
      case 0:
        return Arg.of(i);
      case 1:
        return Arg.of(i.atZone(ZoneId.of(s.pick(ZONES))));
      case 2:
        return Arg.of(i.atOffset(offset(s)));
      case 3: {
        Date d = new Date(i.toEpochMilli());
        switch (s.below(4)) {
          default:
            return Arg.of(d);
          case 2:
            java.sql.Timestamp t = new java.sql.Timestamp(i.toEpochMilli());
            t.setNanos(i.getNano());
            return Arg.of(t);
          case 3:
            return Arg.of(s.bool() ? new java.sql.Date(i.toEpochMilli()) : new java.sql.Time(i.toEpochMilli()));
        }
      }
      case 4: {
        Calendar c = new GregorianCalendar(TimeZone.getTimeZone(s.pick(ZONES)));
        c.setTimeInMillis(i.toEpochMilli());
        return Arg.of(c);
      }
      case 5:
        return epochArg(s);
      case 6:
        return Arg.of(i.atZone(offset(s)));
      case 7:
        return Arg.of(LocalDateTime.ofEpochSecond(i.getEpochSecond(), i.getNano(), ZoneOffset.UTC));
      case 8:
        return Arg.of(LocalDateTime.ofEpochSecond(i.getEpochSecond(), 0, ZoneOffset.UTC).toLocalDate());
      default:
        return Arg.of(LocalTime.ofNanoOfDay(Math.floorMod(i.getEpochSecond(), 86400L) * 1000000000L + i.getNano()));
    }
  }

  /** Date/time objects beyond the common ones. */
  static Arg rareTimeArg(Src s) {
    Instant i = instant(s);
    ZonedDateTime z = i.atZone(ZoneId.of(s.pick(ZONES)));
    long t = i.toEpochMilli();
    try {
      switch (s.below(13)) {
        case 0:
          return Arg.of(java.time.Year.from(z));
        case 1:
          return Arg.of(java.time.YearMonth.from(z));
        case 2:
          return Arg.of(java.time.MonthDay.from(z));
        case 3:
          return Arg.of(z.toOffsetDateTime().toOffsetTime());
        case 4:
          return Arg.of(java.time.chrono.ThaiBuddhistDate.from(z));
        case 5:
          return Arg.of(java.time.chrono.MinguoChronology.INSTANCE.zonedDateTime(z));
        case 6:
          return Arg.of(java.time.chrono.JapaneseDate.from(z));
        case 7:
          return Arg.of(s.bool() ? z.getDayOfWeek() : z.getMonth());
        case 8:
          return Arg.of(new Kinds.Moment(z));
        case 9:
          return Arg.of(new Kinds.Moment(i));
        case 10: { // a calendar with fields set but not yet computed
          GregorianCalendar c = new GregorianCalendar(TimeZone.getTimeZone(s.pick(ZONES)));
          c.clear();
          c.set(s.range(1960, 2040), s.range(0, 14), s.range(0, 40), s.range(0, 30), s.range(0, 70), s.range(0, 70));
          return Arg.of(c);
        }
        case 11: {
          GregorianCalendar c = new GregorianCalendar(TimeZone.getTimeZone(s.pick(ZONES)));
          c.setGregorianChange(new Date(s.bool() ? Long.MAX_VALUE : Long.MIN_VALUE));
          c.setTimeInMillis(t);
          return Arg.of(c);
        }
        default: {
          Calendar c = Calendar.getInstance(TimeZone.getTimeZone(s.pick(ZONES)), java.util.Locale.forLanguageTag(s.pick("th-TH-u-ca-buddhist", "ja-JP-u-ca-japanese")));
          c.setTimeInMillis(t);
          return Arg.of(c);
        }
      }
    } catch (java.time.DateTimeException e) {
      return Arg.of(i);
    }
  }

  static Arg epochArg(Src s) {
    long v;
    switch (s.below(6)) {
      case 0:
        v = s.choose(4294967295L);
        break;
      case 1:
        v = 4294967295L + s.range(0, 4) - 2;
        break;
      case 2:
        v = 1600000000000L + s.choose(200000000000L);
        break;
      case 3:
        v = s.choose(1L << 47);
        break;
      case 4:
        v = 2147483647L + s.range(0, 4) - 2;
        break;
      default:
        v = s.range(0, 5);
    }
    boolean prim = s.bool();
    switch (s.below(5)) {
      case 0:
        return new Arg(v, prim);
      case 1:
        return new Arg((int) v, prim);
      case 2:
        return Arg.of(BigInteger.valueOf(v));
      case 3:
        return Arg.of(new AtomicLong(v));
      default:
        return Arg.of(new Kinds.Num(v, -1, -1));
    }
  }

  private static final String[] NUMERIC_PATTERNS = {
    "yyyy-MM-dd", "HH:mm:ss", "yyyy-MM-dd HH:mm:ss.SSS", "uuuu/MM/dd", "yyyyMMddHHmmssSSS", "D", "H", "n",
    "A", "ss.SSSSSSSSS", "'at' HH 'h'", "''yy''", "HH'}'mm", "dd'{'MM'}'uuuu", "d.M.yy", "kk:mm", "yyyy'%d'MM",
    "K:mm", "Q", "yyyy['T'HH]", "uuuu-MM-dd'T'HH:mm:ss", "h:m:s.S"
  };

  static String datePattern(Src s) {
    return s.pick(NUMERIC_PATTERNS);
  }

  // ---------------------------------------------------------------- any conversion with any argument

  static final String CONVS = "diuoxXfFeEgGaAcsStTnp";

  static Spec anySpec(Src s) {
    char conv = s.pickChar(CONVS);
    Spec r = spec(s, conv);
    if ((conv == 't' || conv == 'T') && s.bool()) r.datePattern = datePattern(s);
    return r;
  }

  /** An argument of a kind the conversion is meant for; may still be refused in rare cases. */
  static Arg natural(Src s, char conv) {
    switch (Character.toLowerCase(conv)) {
      case 'd':
      case 'i':
        return intArg(s);
      case 'u':
      case 'o':
      case 'x': {
        Arg a = intArg(s);
        return a.value instanceof BigInteger ? Arg.of(((BigInteger) a.value).abs()) : a;
      }
      case 'f':
      case 'e':
      case 'g':
        return s.chance(1, 8) ? Arg.of(anyBigDecimal(s)) : s.chance(1, 10) ? specialFloat(s) : floatArg(s);
      case 'a':
        return s.chance(1, 10) ? specialFloat(s) : floatArg(s);
      case 'c':
        return charArg(s);
      case 's':
        return textArg(s);
      case 't':
        return timeArg(s, false);
      case 'p':
        return s.chance(1, 8) ? Arg.of(null) : Arg.of(new Kinds.Obj(textOf(s, s.range(0, 4))));
      default:
        return any(s);
    }
  }

  /** Any argument whatsoever. */
  static Arg any(Src s) {
    switch (s.below(13)) {
      case 0:
        return intArg(s);
      case 1:
        return floatArg(s);
      case 2:
        return textArg(s);
      case 3:
        return new Arg(s.bool(), s.bool());
      case 4:
        return new Arg((char) s.choose(0xFFFF), s.bool());
      case 5:
        return Arg.of(anyBigDecimal(s));
      case 6:
        return Arg.of(chars(s, numericText(s)));
      case 7:
        return timeArg(s, false);
      case 8:
        return Arg.of(null);
      case 9:
        return otherObject(s);
      case 10:
        return Arg.of(number(s));
      case 11:
        return specialFloat(s);
      default:
        return s.bool() ? Arg.of(new Kinds.NoFields()) : Arg.of(Instant.ofEpochSecond(epochSecond(s)));
    }
  }

  /** The shortest decimal as text, the same on every runtime. */
  private static String shortText(double v) {
    String t = Shortest.of(Math.abs(v)).stripTrailingZeros().toString();
    return Double.doubleToRawLongBits(v) < 0 ? "-" + t : t;
  }

  static Number number(Src s) {
    switch (s.below(4)) {
      case 0:
        return new AtomicInteger((int) anyLong(s));
      case 1:
        return new AtomicLong(anyLong(s));
      default:
        return new Kinds.Num(anyLong(s), s.chance(1, 8) ? Double.NaN : finite(s), (int) anyLong(s));
    }
  }

  /** Text that mostly reads as a number. */
  static String numericText(Src s) {
    switch (s.below(12)) {
      case 0:
      case 1:
        return Long.toString(anyLong(s));
      case 2:
        return "+" + s.range(0, 100000);
      case 3:
        return shortText(finite(s));
      case 4:
        return s.range(0, 99999) + "." + (s.chance(1, 20) ? Model.rep('0', s.range(0, 500)) : "") + s.range(0, 99999) + "e" + (s.range(0, 40) - 20);
      case 5:
        return (s.chance(1, 20) ? Model.rep('0', s.chance(1, 200) ? huge(s, 1 << 16) : s.range(1, 70)) : "0") + s.range(0, 999);
      case 6:
        return anyBigInteger(s).toString();
      case 7:
        return s.pick("", " ", "-", "+", "0x10", "1 ", " 1", "1_000", "NaN", "1e", ".", "1.5f", "0x1p3", "١٢", "--1", "1L", "Infinity", "-0", "2147483648", "-2147483649", "9223372036854775808");
      case 8:
        return text(s);
      case 9:
        return " " + s.range(0, 99) + "\t";
      default:
        return Integer.toString(s.range(-50, 50));
    }
  }
}
