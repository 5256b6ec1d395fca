package pbt;

import java.time.format.DateTimeFormatter;
import java.util.ArrayList;
import java.util.List;
import java.util.regex.Matcher;
import java.util.regex.Pattern;

/**
 * The format grammar, written down as a regular expression per conversion plus the scan for the end
 * of a date pattern.
 */
final class Grammar {

  static final class Item {
    String literal; // literal text, or null for a conversion
    Spec spec;
    boolean starWidth;
    boolean starPrec;
  }

  final List<Item> items = new ArrayList<>();
  boolean syntaxError;
  boolean overLimit;
  boolean unreadable; // a number beyond the int range

  private static final Pattern CONV = Pattern.compile(
      "%([-+ 0#]*+)(\\*|[0-9]*+)(\\.(\\*|[0-9]*+))?([diuoxXfFeEgGaAcsStTnp%])");

  static Grammar parse(String f) {
    Grammar g = new Grammar();
    int i = 0;
    int n = f.length();
    StringBuilder lit = new StringBuilder();
    Matcher m = CONV.matcher(f);
    while (i < n) {
      char ch = f.charAt(i);
      if (ch != '%') {
        lit.append(ch);
        i++;
        continue;
      }
      if (i + 1 < n && f.charAt(i + 1) == '%') {
        lit.append('%');
        i += 2;
        continue;
      }
      g.flush(lit);
      m.region(i, n);
      if (!m.lookingAt()) {
        g.syntaxError = true;
        return g;
      }
      Item it = new Item();
      it.spec = new Spec();
      for (char c : m.group(1).toCharArray()) {
        int bit = c == '-' ? Spec.MINUS : c == '+' ? Spec.PLUS : c == ' ' ? Spec.SPACE
            : c == '0' ? Spec.ZERO : Spec.HASH;
        if ((it.spec.flags & bit) != 0) {
          g.syntaxError = true;
          return g;
        }
        it.spec.flags |= bit;
      }
      if (m.group(2).equals("*")) it.starWidth = true;
      else if (!m.group(2).isEmpty()) it.spec.width = g.number(m.group(2));
      if (m.group(3) != null) {
        if (m.group(4).equals("*")) it.starPrec = true;
        else it.spec.prec = m.group(4).isEmpty() ? 0 : g.number(m.group(4));
      }
      it.spec.conv = m.group(5).charAt(0);
      i = m.end();
      if ((it.spec.conv == 't' || it.spec.conv == 'T') && i < n && f.charAt(i) == '{') {
        int end = closing(f, i + 1);
        if (end < 0 || end == i + 1) {
          g.syntaxError = true;
          return g;
        }
        it.spec.datePattern = f.substring(i + 1, end);
        try {
          DateTimeFormatter.ofPattern(it.spec.datePattern);
        } catch (RuntimeException e) {
          g.syntaxError = true;
          return g;
        }
        i = end + 1;
      }
      g.items.add(it);
    }
    g.flush(lit);
    return g;
  }

  private void flush(StringBuilder lit) {
    if (lit.length() == 0) return;
    Item it = new Item();
    it.literal = lit.toString();
    lit.setLength(0);
    items.add(it);
  }

  private int number(String digits) {
    int k = 0;
    while (k < digits.length() - 1 && digits.charAt(k) == '0') k++;
    digits = digits.substring(k);
    if (digits.length() > 10 || Long.parseLong(digits) > Integer.MAX_VALUE) {
      unreadable = true;
      return 0;
    }
    int v = Integer.parseInt(digits);
    if (v > Model.LIMIT) overLimit = true;
    return v;
  }

  /** First brace outside single quotes; a quote opens or closes, so '' never changes the state. */
  private static int closing(String f, int from) {
    boolean quoted = false;
    for (int i = from; i < f.length(); i++) {
      char c = f.charAt(i);
      if (c == '\'') quoted = !quoted;
      else if (c == '}' && !quoted) return i;
    }
    return -1;
  }

  /** The single conversion of a one-conversion format. */
  static Spec spec(String f) {
    Grammar g = parse(f);
    if (g.syntaxError || g.items.size() != 1) throw new AssertionError(f);
    return g.items.get(0).spec;
  }
}
