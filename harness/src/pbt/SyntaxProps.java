package pbt;

import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfSyntaxException;
import java.time.format.DateTimeFormatter;
import java.util.Arrays;

/** C34: where a rejected format is said to be wrong. */
final class SyntaxProps extends Prop {

  SyntaxProps() {
    super("C34");
  }

  @Override
  String rule() {
    return "faulty format strings (valid pieces followed by a generated fault, mutations, strings over significant characters) are compiled; the reported index, "
        + "pattern, message and caret are compared with a scanner of its own that finds the first fault; the same fault after another valid format and "
        + "before other text must be reported alike, shifted by the difference in length; non-trivial when the format is rejected";
  }

  @Override
  int quickCases() {
    return 1500000;
  }

  /** The first fault of a format. */
  private static final class Fault {
    static final int LIMIT = -2;
    static final int NONE = -1;
    int index = NONE;
    boolean open; // the format breaks off, so that more text could mend it
    boolean cause;
    String what = "";

    private Fault at(int index, String what) {
      this.index = index;
      this.what = what;
      return this;
    }
  }

  private static boolean digit(String f, int i) {
    return i < f.length() && f.charAt(i) >= '0' && f.charAt(i) <= '9';
  }

  private static int compareToLimit(String f, int from, int to) {
    while (from < to && f.charAt(from) == '0') from++;
    if (to - from > 10) return 2;
    long v = from == to ? 0 : Long.parseLong(f.substring(from, to));
    return v > Integer.MAX_VALUE ? 2 : v > Model.LIMIT ? 1 : 0;
  }

  private static Fault scan(String f) {
    Fault r = new Fault();
    int n = f.length();
    int i = 0;
    while (i < n) {
      if (f.charAt(i++) != '%') continue;
      if (i < n && f.charAt(i) == '%') {
        i++;
        continue;
      }
      String seen = "";
      for (; i < n && "-+ 0#".indexOf(f.charAt(i)) >= 0; i++) {
        if (seen.indexOf(f.charAt(i)) >= 0) return r.at(i, "repeated flag");
        seen += f.charAt(i);
      }
      boolean over = false;
      for (int part = 0; part < 2; part++) {
        if (part == 1) {
          if (i >= n || f.charAt(i) != '.') break;
          i++;
        }
        if (i < n && f.charAt(i) == '*') {
          i++;
          continue;
        }
        int from = i;
        while (digit(f, i)) i++;
        int size = compareToLimit(f, from, i);
        if (size == 2) return r.at(from, "unreadable number");
        over |= size == 1;
      }
      if (i >= n) {
        r.open = true;
        return r.at(n, "end of the format");
      }
      char conv = f.charAt(i);
      if ("diuoxXfFeEgGaAcsStTnp%".indexOf(conv) < 0) return r.at(i, "unknown conversion");
      i++;
      if ((conv == 't' || conv == 'T') && i < n && f.charAt(i) == '{') {
        boolean quoted = false;
        int end = i + 1;
        for (; end < n && (quoted || f.charAt(end) != '}'); end++) {
          if (f.charAt(end) == '\'') quoted = !quoted;
        }
        if (end >= n) {
          r.open = true;
          return r.at(i, "unclosed pattern");
        }
        if (end == i + 1) return r.at(end, "empty pattern");
        try {
          DateTimeFormatter.ofPattern(f.substring(i + 1, end));
        } catch (RuntimeException e) {
          r.cause = true;
          return r.at(i + 1, "invalid pattern");
        }
        i = end + 1;
      }
      if (over) return r.at(Fault.LIMIT, "number over the limit");
    }
    return r;
  }

  /** A number beyond the int range, or rarely just below its end. */
  static String huge(Src s) {
    switch (s.below(4)) {
      case 0:
        return s.pick("2147483648", "99999999999", "02147483648", "4294967296", "4294967297", "18446744073709551616", "9999999999999999999999", "2147483647");
      case 1: { // few different digits
        StringBuilder sb = new StringBuilder();
        for (int k = s.range(11, 30); k > 0; k--) sb.append((char) ('0' + (s.bool() ? 0 : s.below(10))));
        return s.range(1, 9) + sb.toString();
      }
      case 2:
        return Model.rep('0', s.range(1, 12)) + s.range(1, 9) + G.digitString(s, s.range(10, 25));
      default:
        return Long.toString(Integer.MAX_VALUE + 1L + (s.bits() >>> s.range(1, 60)) / 2);
    }
  }

  private static String faulty(Src s) {
    String d = "%" + Spec.flagText(s.below(32), s.below(6));
    String wide = d + s.pick("", "7", "*", "12") + s.pick("", ".", ".3", ".*", ".00");
    switch (s.below(7)) {
      case 0: {
        String fl = Spec.flagText(1 + s.below(31), s.below(6));
        return "%" + fl + fl.charAt(s.below(fl.length())) + s.pick("", "5", ".2") + s.pick("d", "s", "", "q");
      }
      case 1:
        return d + huge(s) + s.pick("d", ".2f", "", "q", "s");
      case 2:
        return d + s.pick("", "7", "*") + "." + huge(s) + s.pick("d", "f", "", "q", "s");
      case 3:
        return wide + s.pickChar("bqyzhlLjDIOUCPNkvmrw$,(<{}'\"\n\u0000é０\ud83d|;:!@~") + s.pick("", "d", "s", "}");
      case 4:
        return wide;
      case 5:
        return wide + s.pickChar("tT") + s.pick("{}", "{b}", "{qqqqqq}", "{]}", "{#}", "{yyyy{}", "{I}", "{ppHd}", "{HH'}'b}", "{VVV}");
      default:
        return wide + s.pickChar("tT") + "{" + s.pick("", "HH", "HH'}'", "'", "'}", "HH''", "yyyy-MM-dd", "'a}b");
    }
  }

  private static PrintfSyntaxException compile(Case c, String f) {
    Fault x = scan(f);
    Out o = Out.of(() -> FastPrintf.compile(f));
    String what = "compiling " + Show.of(f) + " (" + f.length() + " characters)";
    c.checks++;
    c.label(x.index == Fault.NONE ? "well-formed" : x.what);
    if (x.index == Fault.NONE) {
      if (!o.ok()) c.fail(what + "\n  expected: accepted\n  actual:   " + o);
      return null;
    }
    if (x.index == Fault.LIMIT) {
      if (!o.rejected()) c.fail(what + "\n  expected: formatting exception for the size limit\n  actual:   " + o);
      return null;
    }
    if (!o.syntaxError()) c.fail(what + "\n  expected: syntax error (" + x.what + " at " + x.index + ")\n  actual:   " + o);
    PrintfSyntaxException e = (PrintfSyntaxException) o.error;
    c.same(x.index, e.getIndex(), what + ": index of the " + x.what);
    c.same(f, e.getPattern(), what + ": pattern");
    String m = e.getMessage();
    c.ok(e.getDescription() != null && !e.getDescription().isEmpty(), what + ": no description");
    c.ok(m != null && m.startsWith(e.getDescription()), what + ": message " + Show.of(m) + " does not start with the description");
    c.ok(m.contains(String.valueOf(x.index)), what + ": message " + Show.of(m) + " does not name the index");
    int at = m.indexOf(f, e.getDescription().length());
    c.ok(at >= 0, what + ": message " + Show.of(m) + " does not show the format");
    if (x.index < f.length()) {
      String tail = System.lineSeparator() + Model.rep(' ', x.index) + "^";
      c.ok(m.endsWith(f + tail), what + ": message " + Show.of(m) + " has no mark below the fault");
    }
    c.ok(e.getCause() != null || !x.cause, what + ": the cause is missing");
    return e;
  }

  @Override
  void test(Case c) {
    Src s = c.src;
    String f;
    if (s.chance(1, 3)) {
      f = TextProps.Compile.generate(s);
    } else {
      String before = valid(s);
      f = before + faulty(s) + s.pick("", "", "x", "%d", " }", "%q", "%", "\n");
    }
    c.key(f);
    c.describe(() -> "compile " + Show.of(f));
    PrintfSyntaxException e = compile(c, f);
    if (e == null) return;
    c.nontrivial();
    if (f.length() < 1000 && s.chance(1, 60)) {
      PrintfSyntaxException r = Ser.copy(c, e);
      c.same(Arrays.asList(e.getIndex(), e.getPattern(), e.getDescription(), e.getMessage()),
          Arrays.asList(r.getIndex(), r.getPattern(), r.getDescription(), r.getMessage()), "exception read back, for " + Show.of(f));
    }
    Fault x = scan(f);
    String other = valid(s);
    String g = other + f;
    PrintfSyntaxException e2 = compile(c, g);
    if (e2 == null) c.fail("no syntax error for " + Show.of(g) + ", but for " + Show.of(f));
    c.same(e.getIndex() + other.length(), e2.getIndex(), "index in " + Show.of(g) + " compared with " + Show.of(f));
    if (!x.open && !x.what.equals("unreadable number")) {
      String tail = TextProps.Compile.generate(s);
      int cut = Math.min(f.length(), x.index + 1);
      PrintfSyntaxException e3 = x.what.contains("pattern") ? compile(c, f + tail) : compile(c, f.substring(0, cut) + tail);
      if (e3 == null) c.fail("no syntax error after appending " + Show.of(tail) + " to " + Show.of(f));
      c.same(e.getIndex(), e3.getIndex(), "index after appending " + Show.of(tail) + " to " + Show.of(f));
      c.same(e.getDescription(), e3.getDescription(), "description after appending " + Show.of(tail) + " to " + Show.of(f));
    }
  }

  /** A format that is accepted. */
  private static String valid(Src s) {
    StringBuilder sb = new StringBuilder();
    if (s.chance(1, 100)) sb.append(G.textOf(s, s.chance(1, 100) ? G.huge(s, 1 << 20) : s.pickInt(100, 1000, 5000)).replace('%', '_'));
    for (int k = s.below(4); k > 0; k--) {
      String p = s.pick("%%", "%t{HH}", "%T{'}'mm}|", "{", "'", "\n", "aé😀", null, null, null);
      if (p == null) p = s.bool() ? G.anySpec(s).text(s.below(6), s.chance(1, 8), s.chance(1, 8)) : G.textOf(s, s.range(0, 6)).replace("%", "");
      sb.append(p);
    }
    String t = sb.append(sb.toString().toLowerCase(java.util.Locale.ROOT).endsWith("t") ? "." : "").toString(); // "%t" is no longer open
    return scan(t).index == Fault.NONE ? t : "ok";
  }
}
