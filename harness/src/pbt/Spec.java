package pbt;

/** One conversion: flags, width, precision, letter. */
final class Spec {
  static final int MINUS = 1, PLUS = 2, SPACE = 4, ZERO = 8, HASH = 16;

  int flags;
  int width = -1;
  int prec = -1;
  char conv;
  String datePattern; // only for t and T

  boolean has(int f) {
    return (flags & f) != 0;
  }

  Spec copy() {
    Spec s = new Spec();
    s.flags = flags;
    s.width = width;
    s.prec = prec;
    s.conv = conv;
    s.datePattern = datePattern;
    return s;
  }

  Spec withConv(char c) {
    Spec s = copy();
    s.conv = c;
    return s;
  }

  Spec withWidth(int w) {
    Spec s = copy();
    s.width = w;
    return s;
  }

  Spec withPrec(int p) {
    Spec s = copy();
    s.prec = p;
    return s;
  }

  Spec withFlags(int f) {
    Spec s = copy();
    s.flags = f;
    return s;
  }

  boolean upper() {
    return "XFEGAST".indexOf(conv) >= 0;
  }

  char lowerConv() {
    return Character.toLowerCase(conv);
  }

  boolean isInt() {
    return "diuoxX".indexOf(conv) >= 0;
  }

  boolean isFloat() {
    return "fFeEgGaA".indexOf(conv) >= 0;
  }

  /** Flags in one of several orders, selected by perm. */
  static String flagText(int flags, int perm) {
    String s = "";
    String order = ORDERS[Math.floorMod(perm, ORDERS.length)];
    for (int i = 0; i < order.length(); i++) {
      char f = order.charAt(i);
      int bit = f == '-' ? MINUS : f == '+' ? PLUS : f == ' ' ? SPACE : f == '0' ? ZERO : HASH;
      if ((flags & bit) != 0) s += f;
    }
    return s;
  }

  private static final String[] ORDERS = {"-+ 0#", "#0 +-", "0-#+ ", " +-#0", "+0#- ", "#- +0"};

  String text() {
    return text(0, false, false);
  }

  String text(int perm, boolean starWidth, boolean starPrec) {
    StringBuilder sb = new StringBuilder("%").append(flagText(flags, perm));
    if (starWidth) sb.append('*');
    else if (width >= 0) sb.append(width == 0 ? "" : Integer.toString(width));
    if (starPrec) sb.append(".*");
    else if (prec >= 0) sb.append('.').append(prec);
    sb.append(conv);
    if (datePattern != null) sb.append('{').append(datePattern).append('}');
    return sb.toString();
  }

  @Override
  public String toString() {
    return text();
  }
}
