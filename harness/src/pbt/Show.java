package pbt;

import java.lang.reflect.Array;
import java.lang.reflect.Proxy;

/** Unambiguous ASCII rendering of values for reports. */
final class Show {
  private Show() {}

  static String of(Object o) {
    if (o == null) return "null";
    if (o instanceof Out) return o.toString();
    if (o instanceof String) return quote((String) o);
    if (o instanceof Character) return "'" + esc("" + o) + "'";
    if (o instanceof Long) return o + "L";
    if (o instanceof Float) return o + "f(0x" + Integer.toHexString(Float.floatToRawIntBits((Float) o)) + ")";
    if (o instanceof Double) return o + "d(0x" + Long.toHexString(Double.doubleToRawLongBits((Double) o)) + ")";
    if (o instanceof CharSequence) return simple(o) + ":" + quote(textOf((CharSequence) o));
    if (o.getClass().isArray()) {
      StringBuilder sb = new StringBuilder(o.getClass().getSimpleName()).append("{");
      int n = Array.getLength(o);
      for (int i = 0; i < n; i++) sb.append(i == 0 ? "" : ", ").append(of(Array.get(o, i)));
      return sb.append("}").toString();
    }
    return simple(o) + ":" + quote(String.valueOf(o));
  }

  private static String textOf(CharSequence c) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < c.length(); i++) sb.append(c.charAt(i));
    return sb.toString();
  }

  static String simple(Object o) {
    if (Proxy.isProxyClass(o.getClass())) return "Proxy(" + o.getClass().getInterfaces()[0].getSimpleName() + ")";
    String n = o.getClass().getName();
    return n.substring(n.lastIndexOf('.') + 1);
  }

  static String unicode(char c) {
    String h = Integer.toHexString(c);
    return "\\u" + "0000".substring(h.length()) + h;
  }

  static String quote(String s) {
    if (s.length() > 400) {
      return "\"" + esc(s.substring(0, 180)) + "\"...(" + s.length() + " chars, hash "
          + Integer.toHexString(s.hashCode()) + ")...\"" + esc(s.substring(s.length() - 100)) + "\"";
    }
    return "\"" + esc(s) + "\"";
  }

  private static String esc(String s) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') sb.append('\\').append(c);
      else if (c == '\n') sb.append("\\n");
      else if (c < ' ' || c > '~') sb.append(unicode(c));
      else sb.append(c);
    }
    return sb.toString();
  }
}
