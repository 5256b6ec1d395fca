package pbt;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.OffsetDateTime;
import java.time.ZoneId;
import java.time.ZoneOffset;
import java.time.ZonedDateTime;

/** Values easily mistaken for others, for code that remembers results. */
final class Twin {
  private Twin() {}

  /** Another value of the same type and hash code, or null when none is known. */
  static Arg of(Src s, Arg a) {
    Object v = a.value;
    Object t = null;
    if (v instanceof Long) t = longTwin(s, (Long) v);
    else if (v instanceof Double) {
      double d = Double.longBitsToDouble(longTwin(s, Double.doubleToRawLongBits((Double) v)));
      t = Double.isNaN(d) || Double.isInfinite(d) || Double.isNaN((Double) v) || Double.isInfinite((Double) v) ? null : (Object) d;
    } else if (v instanceof BigInteger) t = bigTwin(s, (BigInteger) v);
    else if (v instanceof BigDecimal) {
      BigDecimal d = (BigDecimal) v;
      BigInteger u = d.unscaledValue();
      t = new BigDecimal(u.bitLength() < 64 ? BigInteger.valueOf(longTwin(s, u.longValue())) : bigTwin(s, u), d.scale());
    } else if (v instanceof String) t = textTwin(s, (String) v);
    return t == null || t.equals(v) ? null : new Arg(t, a.primitive);
  }

  /** A value that some comparison takes for the given one (equal, of the same amount, moment or text), or null. */
  static Arg near(Src s, Arg a) {
    try {
      Object t = near(s, a.value);
      return t == null ? null : new Arg(t, a.primitive && t.getClass() == a.value.getClass());
    } catch (java.time.DateTimeException | ArithmeticException e) {
      return null;
    }
  }

  @SuppressWarnings("deprecation")
  private static Object near(Src s, Object v) {
    int k = s.below(4);
    if (v instanceof Double) {
      double d = (Double) v;
      return k == 0 ? (Object) (-d) : k == 1 ? (Object) Math.nextUp(d) : k == 2 ? (Object) (float) d : Double.valueOf(d + 0.0);
    }
    if (v instanceof Float) {
      float d = (Float) v;
      return k == 0 ? (Object) (-d) : k == 1 ? (Object) Math.nextUp(d) : k == 2 ? (Object) (double) d : (Object) Double.parseDouble(Float.toString(d));
    }
    if (v instanceof Byte || v instanceof Short || v instanceof Integer || v instanceof Long) {
      long n = ((Number) v).longValue();
      switch (s.below(8)) {
        case 0:
          return -n;
        case 1:
          return n + (1L << 32);
        case 2:
          return (int) n;
        case 3:
          return (short) n;
        case 4:
          return (byte) n;
        case 5:
          return BigInteger.valueOf(n);
        case 6:
          return new Integer((int) n);
        default:
          return n ^ 1;
      }
    }
    if (v instanceof BigInteger) {
      BigInteger n = (BigInteger) v;
      return k == 0 ? (Object) n.longValue() : k == 1 ? n.add(BigInteger.ONE) : k == 2 ? n.negate() : new BigDecimal(n);
    }
    if (v instanceof BigDecimal) {
      BigDecimal d = (BigDecimal) v;
      if (k == 0) return Math.abs((long) d.scale()) < 400 ? d.setScale(d.scale() + s.range(1, 3)) : null;
      if (k == 1) return d.precision() < 1000 ? d.stripTrailingZeros() : null;
      return k == 2 ? (Object) d.doubleValue() : d.negate();
    }
    if (v instanceof String) {
      String t = (String) v;
      return k == 0 ? new String(t) : k == 1 ? (Object) new StringBuilder(t) : k == 2 ? t.toLowerCase(java.util.Locale.ROOT) : t.trim();
    }
    if (v instanceof Instant) {
      Instant i = (Instant) v;
      return k == 0 ? i.plusNanos(1) : k == 1 ? (Object) i.atOffset(ZoneOffset.UTC) : k == 2 ? Instant.ofEpochSecond(i.getEpochSecond()) : i.plusSeconds(1);
    }
    if (v instanceof OffsetDateTime) {
      OffsetDateTime d = (OffsetDateTime) v;
      ZoneOffset o = ZoneOffset.ofHours(s.range(0, 8) - 4);
      return k == 0 ? d.withOffsetSameInstant(o) : k == 1 ? d.withOffsetSameLocal(o) : k == 2 ? (Object) d.toInstant() : d.plusNanos(1);
    }
    if (v instanceof ZonedDateTime) {
      ZonedDateTime d = (ZonedDateTime) v;
      ZoneId z = s.bool() ? ZoneId.of("Europe/Berlin") : ZoneOffset.ofHours(1);
      return k == 0 ? d.withZoneSameInstant(z) : k == 1 ? d.withZoneSameLocal(z) : k == 2 ? (Object) d.toOffsetDateTime() : d.plusNanos(1);
    }
    if (v instanceof LocalDateTime) {
      LocalDateTime d = (LocalDateTime) v;
      return k == 0 ? d.plusNanos(1) : k == 1 ? (Object) d.toLocalDate() : k == 2 ? d.plusDays(1) : d.plusSeconds(1);
    }
    if (v instanceof LocalDate) return k == 0 ? ((LocalDate) v).atStartOfDay() : ((LocalDate) v).plusDays(k);
    if (v instanceof Kinds.Obj) return new Kinds.Obj(((Kinds.Obj) v).s + (k == 0 ? "" : "x"));
    if (v instanceof Character) return k == 0 ? new Character((Character) v) : (Object) (char) ((Character) v ^ 0x20);
    if (v instanceof Boolean) return k == 0 ? new Boolean((Boolean) v) : (Object) !(Boolean) v;
    return null;
  }

  private static long longTwin(Src s, long v) {
    long m = s.bool() ? 1L << s.below(31) : s.below(1 << 16);
    return v ^ m ^ m << 32;
  }

  private static BigInteger bigTwin(Src s, BigInteger v) {
    int words = (v.abs().bitLength() + 31) / 32;
    if (words < 2) return v;
    BigInteger d = BigInteger.ONE.shiftLeft(32).subtract(BigInteger.valueOf(31)).shiftLeft(32 * s.below(words - 1));
    BigInteger m = v.abs().add(d);
    return v.signum() < 0 ? m.negate() : m;
  }

  /** Changes two neighbouring characters; null when there are none that can be changed. */
  static String textTwin(Src s, String t) {
    if (t.length() < 2) return null;
    int i = s.below(t.length() - 1);
    int x = t.charAt(i);
    int y = t.charAt(i + 1);
    if (x < 0x7e && y >= ' ' + 31) {
      x++;
      y -= 31;
    } else if (x > ' ' && y <= 0x7e - 31) {
      x--;
      y += 31;
    } else return null;
    return t.substring(0, i) + (char) x + (char) y + t.substring(i + 2);
  }
}
