package pbt;

import java.lang.reflect.Array;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.time.DateTimeException;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.OffsetDateTime;
import java.time.ZoneId;
import java.time.ZonedDateTime;
import java.time.format.DateTimeFormatter;
import java.time.temporal.TemporalAccessor;
import java.util.Calendar;
import java.util.Date;

/**
 * Reference definition of what one conversion prints, written from the C standard, the README and
 * the javadoc. Shares no code with the library.
 */
final class Model {
  private Model() {}

  static final int LIMIT = 65536;

  /** Text printed for the argument; throws Reject when the argument must be refused. */
  static String format(Spec s, Arg a) {
    String t = lower(s, a);
    return s.upper() ? upper(t) : t;
  }

  static String upper(String t) {
    char[] c = t.toCharArray();
    for (int i = 0; i < c.length; i++) if (c[i] >= 'a' && c[i] <= 'z') c[i] -= 32;
    return new String(c);
  }

  private static String lower(Spec s, Arg a) {
    switch (s.conv) {
      case 'd':
      case 'i':
        return signed(s, intOf(a.value).value);
      case 'u':
        return unsigned(s, intOf(a.value), 10);
      case 'o':
        return unsigned(s, intOf(a.value), 8);
      case 'x':
      case 'X':
        return unsigned(s, intOf(a.value), 16);
      case 'f':
      case 'F':
      case 'e':
      case 'E':
      case 'g':
      case 'G':
      case 'a':
      case 'A':
        return floating(s, floatOf(a.value));
      case 'c':
        return spaces(s, String.valueOf(charOf(a.value)));
      case 's':
      case 'S':
        return text(s, textOf(a.value));
      case 't':
      case 'T':
        return spaces(s, temporal(s, a.value));
      case 'n':
        return "";
      case 'p':
        if (a.primitive) throw new Reject("primitive for %p");
        if (a.value == null) return spaces(s, "null");
        return spaces(s, a.value.getClass().getName() + "@"
            + Integer.toHexString(System.identityHashCode(a.value)));
      default:
        throw new AssertionError(s.conv);
    }
  }

  // ---------------------------------------------------------------- padding

  static String rep(char c, int n) {
    if (n <= 0) return "";
    char[] a = new char[n];
    java.util.Arrays.fill(a, c);
    return new String(a);
  }

  private static String spaces(Spec s, String t) {
    int pad = s.width - t.length();
    if (pad <= 0) return t;
    return s.has(Spec.MINUS) ? t + rep(' ', pad) : rep(' ', pad) + t;
  }

  /** head (sign, prefix) + body, zero-padded in between when allowed. */
  private static String number(Spec s, String head, String body, boolean zeroPadAllowed) {
    int pad = s.width - head.length() - body.length();
    if (pad > 0 && zeroPadAllowed && s.has(Spec.ZERO) && !s.has(Spec.MINUS)) {
      return head + rep('0', pad) + body;
    }
    return spaces(s, head + body);
  }

  private static String sign(Spec s, boolean negative) {
    return negative ? "-" : s.has(Spec.PLUS) ? "+" : s.has(Spec.SPACE) ? " " : "";
  }

  // ---------------------------------------------------------------- integers

  /** An integer and the width in bits of its type (0: unbounded). */
  static final class Int {
    final BigInteger value;
    final int bits;

    Int(BigInteger value, int bits) {
      this.value = value;
      this.bits = bits;
    }

    Int(long value, int bits) {
      this(BigInteger.valueOf(value), bits);
    }
  }

  private static String signed(Spec s, BigInteger v) {
    String digits = v.abs().toString();
    if (s.prec == 0 && v.signum() == 0) digits = "";
    if (s.prec > digits.length()) digits = rep('0', s.prec - digits.length()) + digits;
    return number(s, sign(s, v.signum() < 0), digits, s.prec < 0);
  }

  private static String unsigned(Spec s, Int i, int radix) {
    BigInteger v = i.value;
    if (v.signum() < 0) {
      if (i.bits == 0) throw new Reject("negative unbounded value as unsigned");
      v = v.add(BigInteger.ONE.shiftLeft(i.bits));
    }
    String digits = v.toString(radix);
    if (s.prec == 0 && v.signum() == 0) digits = "";
    if (s.prec > digits.length()) digits = rep('0', s.prec - digits.length()) + digits;
    String head = "";
    if (s.has(Spec.HASH)) {
      if (radix == 8 && !digits.startsWith("0")) digits = "0" + digits;
      if (radix == 16 && v.signum() != 0) head = "0x";
    }
    return number(s, head, digits, s.prec < 0);
  }

  // ---------------------------------------------------------------- floats

  /** Either a double or an exact decimal. */
  static final class Flt {
    final boolean exact;
    final double d;
    final BigDecimal dec;

    Flt(double d) {
      this.exact = false;
      this.d = d;
      this.dec = null;
    }

    Flt(BigDecimal dec) {
      this.exact = true;
      this.d = 0;
      this.dec = dec;
    }
  }

  private static String floating(Spec s, Flt v) {
    boolean negative;
    BigDecimal mag;
    char c = s.lowerConv();
    if (v.exact) {
      if (c == 'a') throw new Reject("no hex form for decimals");
      negative = v.dec.signum() < 0;
      mag = v.dec.abs();
    } else {
      if (Double.isNaN(v.d)) return spaces(s, "NaN");
      negative = Double.doubleToRawLongBits(v.d) < 0;
      if (Double.isInfinite(v.d)) return spaces(s, sign(s, negative) + "Infinity");
      if (c == 'a') return number(s, sign(s, negative) + "0x", hex(Math.abs(v.d), s.prec), true);
      mag = Shortest.of(Math.abs(v.d));
    }
    String body;
    switch (c) {
      case 'f':
        body = fixed(mag, s.prec < 0 ? 6 : s.prec, s.has(Spec.HASH));
        break;
      case 'e':
        body = scientific(mag, s.prec < 0 ? 6 : s.prec, s.has(Spec.HASH));
        break;
      default:
        body = general(mag, s.prec < 0 ? 6 : s.prec == 0 ? 1 : s.prec, s.has(Spec.HASH));
    }
    return number(s, sign(s, negative), body, true);
  }

  static String fixed(BigDecimal mag, int prec, boolean point) {
    if ((long) mag.precision() - mag.scale() < -prec || mag.signum() == 0) mag = BigDecimal.ZERO; // below a tenth of a unit
    String t = mag.setScale(prec, RoundingMode.HALF_UP).toPlainString();
    return prec == 0 && point ? t + "." : t;
  }

  /** Digits d (prec+1 of them) and exponent of mag rounded half-up. */
  private static String digits(BigDecimal mag, int count, long[] exponent) {
    if (mag.signum() == 0) {
      exponent[0] = 0;
      return rep('0', count);
    }
    BigDecimal r = new BigDecimal(mag.unscaledValue(), new MathContext(count, RoundingMode.HALF_UP));
    String u = r.unscaledValue().toString();
    exponent[0] = u.length() - 1L - r.scale() - mag.scale();
    if (u.length() > count) throw new AssertionError();
    return u + rep('0', count - u.length());
  }

  private static String exp(long e) {
    long a = Math.abs(e);
    return "e" + (e < 0 ? "-" : "+") + (a < 10 ? "0" : "") + a;
  }

  static String scientific(BigDecimal mag, int prec, boolean point) {
    long[] e = new long[1];
    String d = digits(mag, prec + 1, e);
    return d.charAt(0) + (prec > 0 ? "." + d.substring(1) : point ? "." : "") + exp(e[0]);
  }

  static String general(BigDecimal mag, int p, boolean alt) {
    long[] e = new long[1];
    String d = digits(mag, p, e);
    long xl = e[0];
    int x = (int) Math.max(-100000, Math.min(100000, xl));
    String t;
    String tail = "";
    if (x < -4 || x >= p) {
      t = d.substring(0, 1) + (p > 1 ? "." + d.substring(1) : "");
      tail = exp(xl);
    } else if (x >= 0) {
      t = d.substring(0, x + 1) + (x + 1 < p ? "." + d.substring(x + 1) : alt ? "." : "");
    } else {
      t = "0." + rep('0', -x - 1) + d;
    }
    if (!alt && t.indexOf('.') >= 0) {
      int n = t.length();
      while (t.charAt(n - 1) == '0') n--;
      if (t.charAt(n - 1) == '.') n--;
      t = t.substring(0, n);
    }
    return t + tail;
  }

  static String hex(double v, int prec) {
    if (prec == 0) prec = 1;
    long bits = Double.doubleToRawLongBits(v);
    int be = (int) (bits >>> 52) & 0x7ff;
    long frac = bits & ((1L << 52) - 1);
    if (v == 0) return "0." + rep('0', Math.max(1, prec)) + "p+0";
    if (prec < 0 || prec >= 13) {
      String h = Long.toHexString(frac);
      h = rep('0', 13 - h.length()) + h;
      int n = 13;
      while (n > 1 && h.charAt(n - 1) == '0') n--;
      h = h.substring(0, n);
      if (prec > n) h += rep('0', prec - n);
      int e = be == 0 ? -1022 : be - 1023;
      return (be == 0 ? "0." : "1.") + h + "p" + (e >= 0 ? "+" : "") + e;
    }
    int e;
    long m; // 53 bits, top one set
    if (be == 0) {
      int shift = Long.numberOfLeadingZeros(frac) - 11;
      m = frac << shift;
      e = -1022 - shift;
    } else {
      m = frac | (1L << 52);
      e = be - 1023;
    }
    int drop = 52 - 4 * prec;
    BigDecimal unit = new BigDecimal(BigInteger.ONE.shiftLeft(drop));
    BigInteger r = new BigDecimal(m).divide(unit).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
    if (r.bitLength() > 4 * prec + 1) {
      r = r.shiftRight(1);
      e++;
    }
    String h = r.toString(16); // leading 1 then prec digits
    return "1." + h.substring(1) + "p" + (e >= 0 ? "+" : "") + e;
  }

  // ---------------------------------------------------------------- text

  private static String text(Spec s, String t) {
    return spaces(s, s.prec >= 0 && s.prec < t.length() ? t.substring(0, s.prec) : t);
  }

  // ---------------------------------------------------------------- conversions between types

  static Int intOf(Object o) {
    if (o == null) throw new Reject("null as integer");
    if (o instanceof Boolean) return new Int((Boolean) o ? 1 : 0, 32);
    if (o instanceof Character) return new Int((Character) o, 32);
    if (o instanceof Byte) return new Int((Byte) o, 8);
    if (o instanceof Short) return new Int((Short) o, 16);
    if (o instanceof Integer) return new Int((Integer) o, 32);
    if (o instanceof Long) return new Int((Long) o, 64);
    if (o instanceof Float) return new Int((int) ((Float) o).floatValue(), 32);
    if (o instanceof Double) return new Int((long) ((Double) o).doubleValue(), 64);
    if (o instanceof CharSequence) {
      try {
        return new Int(Long.parseLong(chars(o)), 64);
      } catch (NumberFormatException e) {
        throw new Reject("text is no integer");
      }
    }
    if (o instanceof BigInteger) return new Int((BigInteger) o, 0);
    if (o instanceof BigDecimal) {
      BigDecimal d = (BigDecimal) o;
      return new Int((long) d.precision() - d.scale() <= 0 ? BigInteger.ZERO : d.toBigInteger(), 0);
    }
    if (o instanceof TemporalAccessor) {
      Instant i = instant((TemporalAccessor) o);
      BigInteger ms = BigInteger.valueOf(i.getEpochSecond()).multiply(BigInteger.valueOf(1000))
          .add(BigInteger.valueOf(i.getNano() / 1000000));
      if (ms.bitLength() > 63) throw new Reject("beyond epoch milliseconds");
      return new Int(ms, 64);
    }
    if (o instanceof Number) return new Int(((Number) o).longValue(), 64);
    if (o instanceof Date) return new Int(((Date) o).getTime(), 64);
    if (o instanceof Calendar) return new Int(((Calendar) o).getTimeInMillis(), 64);
    throw new Reject("not a number");
  }

  static Flt floatOf(Object o) {
    if (o == null) throw new Reject("null as float");
    if (o instanceof Boolean) return new Flt((Boolean) o ? 1 : 0);
    if (o instanceof Character) return new Flt((Character) o);
    if (o instanceof Byte || o instanceof Short || o instanceof Integer || o instanceof Long
        || o instanceof Float || o instanceof Double) return new Flt(((Number) o).doubleValue());
    if (o instanceof CharSequence) {
      try {
        return new Flt(Double.parseDouble(chars(o)));
      } catch (NumberFormatException e) {
        throw new Reject("text is no float");
      }
    }
    if (o instanceof BigInteger) return new Flt(new BigDecimal((BigInteger) o));
    if (o instanceof BigDecimal) return new Flt((BigDecimal) o);
    if (o instanceof TemporalAccessor) {
      Instant i = instant((TemporalAccessor) o);
      return new Flt((double) i.getEpochSecond() + i.getNano() / 1e9);
    }
    if (o instanceof Number) return new Flt(((Number) o).doubleValue());
    if (o instanceof Date) return new Flt(((Date) o).getTime() / 1000.0);
    if (o instanceof Calendar) return new Flt(((Calendar) o).getTimeInMillis() / 1000.0);
    throw new Reject("not a number");
  }

  /** The int used for a * width or precision. */
  static int starOf(Object o) {
    if (o == null) throw new Reject("null as int");
    if (o instanceof Boolean) return (Boolean) o ? 1 : 0;
    if (o instanceof Character) return (Character) o;
    if (o instanceof Float) return Math.round((Float) o);
    if (o instanceof Double) return (int) Math.round((Double) o);
    if (o instanceof CharSequence) {
      try {
        return Integer.parseInt(chars(o));
      } catch (NumberFormatException e) {
        throw new Reject("text is no int");
      }
    }
    if (o instanceof TemporalAccessor) return (int) instant((TemporalAccessor) o).getEpochSecond();
    if (o instanceof Number) return ((Number) o).intValue();
    if (o instanceof Date) return (int) (((Date) o).getTime() / 1000);
    if (o instanceof Calendar) return (int) (((Calendar) o).getTimeInMillis() / 1000);
    throw new Reject("not an int");
  }

  static char charOf(Object o) {
    if (o instanceof Character) return (Character) o;
    if (o instanceof CharSequence) {
      if (((CharSequence) o).length() == 0) throw new Reject("empty text as char");
      return ((CharSequence) o).charAt(0);
    }
    if (o instanceof TemporalAccessor) throw new Reject("temporal as char");
    return (char) starOf(o);
  }

  static String chars(Object cs) {
    CharSequence c = (CharSequence) cs;
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < c.length(); i++) sb.append(c.charAt(i));
    return sb.toString();
  }

  static String textOf(Object o) {
    if (o == null) return "null";
    if (o instanceof CharSequence) return chars(o);
    if (o instanceof byte[]) return base64((byte[]) o);
    if (o instanceof char[]) return new String((char[]) o);
    if (o.getClass().isArray()) {
      StringBuilder sb = new StringBuilder("[");
      int n = Array.getLength(o);
      for (int i = 0; i < n; i++) {
        if (i > 0) sb.append(", ");
        sb.append(String.valueOf(Array.get(o, i)));
      }
      return sb.append("]").toString();
    }
    return o.toString();
  }

  private static String base64(byte[] b) {
    String abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < b.length; i += 3) {
      int left = Math.min(3, b.length - i);
      int v = (b[i] & 255) << 16;
      if (left > 1) v |= (b[i + 1] & 255) << 8;
      if (left > 2) v |= b[i + 2] & 255;
      sb.append(abc.charAt(v >> 18)).append(abc.charAt((v >> 12) & 63));
      sb.append(left > 1 ? abc.charAt((v >> 6) & 63) : '=');
      sb.append(left > 2 ? abc.charAt(v & 63) : '=');
    }
    return sb.toString();
  }

  // ---------------------------------------------------------------- date and time

  private static Instant instant(TemporalAccessor t) {
    try {
      return Instant.from(t);
    } catch (DateTimeException e) {
      throw new Reject("not an instant");
    }
  }

  private static Instant epoch(long v) {
    if (v < 0) throw new Reject("negative epoch", true);
    return v <= 0xFFFFFFFFL ? Instant.ofEpochSecond(v) : Instant.ofEpochMilli(v);
  }

  private static TemporalAccessor temporalOf(Object o) {
    if (o instanceof TemporalAccessor) return (TemporalAccessor) o;
    if (o instanceof java.sql.Timestamp) return ((java.sql.Timestamp) o).toInstant();
    if (o instanceof Date) return Instant.ofEpochMilli(((Date) o).getTime());
    if (o instanceof Calendar) return Instant.ofEpochMilli(((Calendar) o).getTimeInMillis());
    if (o instanceof Integer) return epoch((Integer) o & 0xFFFFFFFFL);
    if (o instanceof Long) return epoch((Long) o);
    if (o instanceof BigInteger) return epoch(((BigInteger) o).longValue());
    if (o instanceof Byte || o instanceof Short || o instanceof Float || o instanceof Double
        || o instanceof BigDecimal) throw new Reject("number type without moment");
    if (o instanceof Number) return epoch(((Number) o).longValue());
    throw new Reject("not temporal");
  }

  private static String temporal(Spec s, Object o) {
    TemporalAccessor t = temporalOf(o);
    try {
      if (t instanceof Instant) t = ZonedDateTime.ofInstant((Instant) t, ZoneId.systemDefault());
      DateTimeFormatter f;
      if (s.datePattern != null) f = DateTimeFormatter.ofPattern(s.datePattern);
      else if (t instanceof ZonedDateTime || t instanceof OffsetDateTime) {
        f = DateTimeFormatter.ISO_OFFSET_DATE_TIME;
      } else if (t instanceof LocalDateTime) f = DateTimeFormatter.ISO_LOCAL_DATE_TIME;
      else if (t instanceof LocalDate) f = DateTimeFormatter.ISO_LOCAL_DATE;
      else throw new Reject("no default form");
      return f.format(t);
    } catch (DateTimeException e) {
      throw new Reject("cannot be shown: " + e.getMessage());
    }
  }
}
