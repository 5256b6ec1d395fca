package pbt;

import io.fastprintf.Args;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.temporal.TemporalAccessor;
import java.util.List;

/** One argument: its value and whether it is handed over as a Java primitive. */
final class Arg {
  final Object value;
  final boolean primitive;

  Arg(Object value, boolean primitive) {
    this.value = value;
    this.primitive = primitive;
  }

  static Arg of(Object v) {
    return new Arg(v, false);
  }

  /** Adds through the generic put, or the primitive put for primitives. */
  Args put(Args a) {
    return primitive ? putTyped(a) : a.put(value);
  }

  /** Adds through the most specific typed put. */
  Args putTyped(Args a) {
    Object v = value;
    if (v == null) return a.putNull();
    if (v instanceof Boolean) {
      return primitive ? a.putBoolean((Boolean) v) : a.putBooleanOrNull((Boolean) v);
    }
    if (v instanceof Character) {
      return primitive ? a.putChar((Character) v) : a.putCharOrNull((Character) v);
    }
    if (v instanceof Byte) {
      return primitive ? a.putByte((Byte) v) : a.putByteOrNull((Byte) v);
    }
    if (v instanceof Short) {
      return primitive ? a.putShort((Short) v) : a.putShortOrNull((Short) v);
    }
    if (v instanceof Integer) {
      return primitive ? a.putInt((Integer) v) : a.putIntOrNull((Integer) v);
    }
    if (v instanceof Long) {
      return primitive ? a.putLong((Long) v) : a.putLongOrNull((Long) v);
    }
    if (v instanceof Float) {
      return primitive ? a.putFloat((Float) v) : a.putFloatOrNull((Float) v);
    }
    if (v instanceof Double) {
      return primitive ? a.putDouble((Double) v) : a.putDoubleOrNull((Double) v);
    }
    if (v instanceof String) return a.putString((String) v);
    if (v instanceof CharSequence) return a.putCharSequence((CharSequence) v);
    if (v instanceof BigInteger) return a.putBigInteger((BigInteger) v);
    if (v instanceof BigDecimal) return a.putBigDecimal((BigDecimal) v);
    if (v instanceof TemporalAccessor) return a.putDateTime((TemporalAccessor) v);
    return a.put(v);
  }

  /** Adds a null through one of the puts that accept it. */
  static Args putNull(Args a, int way) {
    switch (way) {
      case 0:
        return a.putBooleanOrNull(null);
      case 1:
        return a.putCharOrNull(null);
      case 2:
        return a.putByteOrNull(null);
      case 3:
        return a.putShortOrNull(null);
      case 4:
        return a.putIntOrNull(null);
      case 5:
        return a.putLongOrNull(null);
      case 6:
        return a.putFloatOrNull(null);
      case 7:
        return a.putDoubleOrNull(null);
      case 8:
        return a.putString(null);
      case 9:
        return a.putCharSequence(null);
      case 10:
        return a.putBigInteger(null);
      case 11:
        return a.putBigDecimal(null);
      case 12:
        return a.putDateTime(null);
      case 13:
        return a.put(null);
      default:
        return a.putNull();
    }
  }

  static Args args(Arg... as) {
    Args r = Args.create();
    for (Arg a : as) a.put(r);
    return r;
  }

  static Args args(List<Arg> as) {
    Args r = Args.create();
    for (Arg a : as) a.put(r);
    return r;
  }

  /** Identity for counting distinct cases. */
  String keyText() {
    return (value == null ? "" : Show.simple(value)) + (primitive ? "!" : ":") + show();
  }

  String show() {
    return (primitive ? "(primitive) " : "") + Show.of(value);
  }

  @Override
  public String toString() {
    return show();
  }
}
