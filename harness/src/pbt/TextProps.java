package pbt;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.PrintfSyntaxException;
import java.util.ArrayList;
import java.util.List;
import java.util.regex.Matcher;
import java.util.regex.Pattern;

/** C10 to C14, C21 to C23, C27, C28: text, layout, grammar, arguments. */
final class TextProps {
  private TextProps() {}

  static final class Text extends Prop {
    Text() {
      super("C10");
    }

    @Override
    String rule() {
      return "%s %S %c with random flags, width, precision and text of many lengths, alphabets and "
          + "character-sequence types (also objects, null, numbers) compared with the model; non-trivial "
          + "when the text is cut, padded, upper-cased, contains a non-ASCII character or is not a String";
    }

    @Override
    int quickCases() {
      return 6000000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      if (s.below(200) == 199) {
        Check.directed(c, "%S", "straße ıİ ﬁ", "%.3s", "abcdef", "%10.0s", "abc", "%c", "", "%c", new StringBuilder(),
            "%5c", 65, "%-5c", 'x', "%c", 0x1F600, "%s", null, "%.2S", null, "%010s", "a", "%+ #s", "a", "%.1s", "😀",
            "%c", "😀", "%S", new Kinds.Cs("abcé"), "%.5c", 'q', "%c", null, "%c", new Kinds.Plain());
        c.nontrivial();
        return;
      }
      boolean ch = s.below(5) == 4;
      Spec sp = G.spec(s, ch ? 'c' : s.bool() ? 'S' : 's');
      Arg a = ch ? G.charArg(s) : G.textArg(s);
      if (!ch && s.chance(1, 40000)) a = Arg.of(G.chars(s, G.textOf(s, G.huge(s, 1 << 21))));
      else if (!ch && s.chance(1, 30000)) {
        a = Arg.of(ScaleProps.array(s.pickInt(2, 4, 2, 4, 0, 1, 3, 5, 6, 7), G.huge(s, 1 << 18)));
        if (s.bool()) sp.prec = -1;
      }
      else if (!ch && s.chance(1, 3000)) a = Arg.of(G.chars(s, G.textOf(s, s.pickInt(65535, 65536, 65537, 70000, 32768, 20000))));
      if (!ch && a.value instanceof CharSequence && s.chance(1, 4)) {
        int n = ((CharSequence) a.value).length() + s.range(0, 2) - 1; // precision at the text's length
        if (n >= 0 && n <= Model.LIMIT) sp.prec = n;
      }
      Out o = Check.conv(c, sp, s.below(6), a);
      c.label("conv %" + sp.conv);
      c.label(a.value == null ? "null" : a.value.getClass().getSimpleName());
      if (!o.ok()) return;
      String t = (String) o.value;
      boolean odd = false;
      for (int i = 0; i < t.length(); i++) odd |= t.charAt(i) > 126;
      if (odd) c.label("non-ASCII");
      if (odd || sp.width > 0 || sp.prec >= 0 || sp.conv == 'S' || !(a.value instanceof String)) c.nontrivial();
    }
  }

  static final class Width extends Prop {
    Width() {
      super("C11");
    }

    @Override
    String rule() {
      return "any conversion except %n with any accepted argument is printed without and with a width; the "
          + "padded text must follow from the unpadded one by inserting spaces or zeros at the single "
          + "permitted place; non-trivial when padding is inserted";
    }

    @Override
    int quickCases() {
      return 4000000;
    }

    private static final Pattern HEAD = Pattern.compile("^[-+ ]?(0[xX])?");

    @Override
    void test(Case c) {
      Src s = c.src;
      char conv = s.pickChar("diuoxXfFeEgGaAcsStTp");
      Spec sp = G.spec(s, conv);
      if ((conv == 't' || conv == 'T') && s.bool()) sp.datePattern = G.datePattern(s);
      Arg a = s.chance(1, 6) ? G.any(s) : G.natural(s, conv);
      int w = sp.width;
      if (w < 0) w = s.range(0, 40);
      if (s.chance(1, 3000)) w = s.bool() ? G.dictSize(s, 65536) : s.range(1000, 65536);
      Spec bare = sp.withWidth(-1);
      // without a width the '-' and '0' flags have nothing to do
      String f0 = bare.text(s.below(6), false, false);
      Out n = Out.of(() -> FastPrintf.compile(f0).format(Arg.args(a)));
      if (n.ok() && s.chance(1, 3)) {
        int len = ((String) n.value).length() + s.range(0, 2) - 1; // around the length itself
        if (len >= 0 && len <= Model.LIMIT) w = len;
      }
      Spec wide = sp.withWidth(w);
      boolean star = w == 0 || s.chance(1, 5);
      String f = wide.text(s.below(6), star, false);
      c.key(f);
      c.key(a.keyText());
      int width = w;
      c.describe(() -> Show.of(f) + (star ? " (* = " + width + ")" : "") + " against " + Show.of(f0) + " with " + a.show());
      Out o = Out.of(() -> FastPrintf.compile(f).format(star ? Arg.args(Arg.of(width), a) : Arg.args(a)));
      if (!n.ok()) {
        c.label("refused");
        c.ok(!o.ok() && o.error.getClass() == n.error.getClass(), "without width " + n + ", with width " + o);
        return;
      }
      c.ok(o.ok(), "without width " + n + ", with width " + o);
      String t = (String) n.value;
      String r = (String) o.value;
      int pad = Math.max(0, w - t.length());
      String exp;
      boolean number = sp.isInt() || sp.isFloat();
      boolean word = sp.isFloat() && (t.toLowerCase(java.util.Locale.ROOT).contains("nan") || t.toLowerCase(java.util.Locale.ROOT).contains("inf"));
      boolean zeros = sp.has(Spec.ZERO) && number && !(sp.isInt() && sp.prec >= 0) && !word;
      if (sp.has(Spec.MINUS)) exp = t + Model.rep(' ', pad);
      else if (zeros) {
        Matcher m = HEAD.matcher(t);
        m.find();
        // the prefix only exists for hex conversions
        int head = sp.lowerConv() == 'x' || sp.lowerConv() == 'a' ? m.end() : t.isEmpty() || "+- ".indexOf(t.charAt(0)) < 0 ? 0 : 1;
        exp = t.substring(0, head) + Model.rep('0', pad) + t.substring(head);
      } else exp = Model.rep(' ', pad) + t;
      c.label(pad == 0 ? "no padding" : sp.has(Spec.MINUS) ? "padded right" : zeros ? "padded with zeros" : "padded left");
      c.label("conv %" + conv);
      if (pad > 0) c.nontrivial();
      c.same(exp, r, Show.of(f) + " with " + a.show() + ", unpadded " + Show.of(t));
    }
  }

  static final class Compile extends Prop {
    Compile() {
      super("C12");
    }

    @Override
    String rule() {
      return "format strings are generated from the grammar, mutated (insert, delete, duplicate, replace "
          + "characters), or assembled from an alphabet of significant characters, up to very long ones; "
          + "acceptance and the kind of refusal are compared with an independent grammar; non-trivial when "
          + "the string contains a percent sign";
    }

    @Override
    int quickCases() {
      return 6000000;
    }

    private static final String SIG = "%%%%%%dsxtTfn0#+- .*123456789{}'yMHc$,(<q\0٠１ \nLlhz";

    private static String piece(Src s) {
      switch (s.below(8)) {
        case 0:
          return G.textOf(s, s.range(0, 5)).replace("%", "");
        case 1:
          return "%%";
        case 2:
          return s.pick("{", "}", "{HH}", "'", "%");
        case 3: { // conversion with odd numbers
          String w = s.pick("", "5", "05", "00012", "65536", "65537", "99999", "2147483647", "2147483648", "99999999999999999999", "*", "**", "-5", "5*");
          String p = s.pick("", ".", ".0", ".5", ".00", ".65536", ".65537", ".2147483648", ".99999999999", ".*", ".*5", "..5", ".-5", ".+1", ".5.", ". 5");
          if (s.chance(1, 12)) w = SyntaxProps.huge(s);
          else if (s.chance(1, 12)) p = "." + SyntaxProps.huge(s);
          else if (s.chance(1, 20)) p = "." + Model.rep('0', s.chance(1, 100) ? G.huge(s, 1 << 16) : s.range(1, 40)) + s.pick("", "7", "65536", "65537", "2147483648");
          return "%" + Spec.flagText(s.below(32), s.below(6)) + w + p + s.pickChar("disxfgeacp%tTn");
        }
        case 4:
          return "%" + s.pick("--", "++", "0#0", "-0", " +", "+ -#0", "- ", "#", "##", "-0-", "  ") + s.pick("", "7", ".3", "*") + s.pickChar("dsxf");
        case 5: { // date pattern
          String p = s.pick("HH", "yyyy-MM-dd", "", "'", "'}'", "''", "H''}", "'a''b'", "b", "[", "]", "{", "#", "HH}mm", "'}", "yyyy'{'", "qq", "'x}y'", "''''", "''}''", "p", "ppH", "VVV", "I", "~");
          if (s.chance(1, 400)) { // long
            String q = G.textOf(s, s.chance(1, 20) ? G.huge(s, 1 << 17) : s.range(100, 2000)).replace("'", "").replace("%", "");
            p = s.chance(1, 10) ? "'" + q + p : "'" + q + "'" + p;
          }
          return "%" + s.pick("", "-10", ".3") + s.pickChar("tTds") + "{" + p + s.pick("}", "}", "}", "", " }");
        }
        default:
          return G.anySpec(s).text(s.below(6), s.chance(1, 8), s.chance(1, 8));
      }
    }

    static String generate(Src s) {
      StringBuilder sb = new StringBuilder();
      int mode = s.weighted(60, 25, 14, 1);
      if (mode == 3) {
        // very long
        String unit = s.pick("%%", "%d", "a%d", "%s%n", "x", "%-5d|", "%t{HH}", "%*.*f");
        int n = s.chance(1, 400) ? G.huge(s, 1 << 19) : s.chance(1, 20) ? s.range(20000, 60000) : s.range(1000, 5000);
        for (int i = 0; i < n; i++) sb.append(unit);
        if (s.bool()) sb.append(s.pick("%", "%y", "%5", "%.", "%-", "%t{", "%t{}", "%--d"));
        return sb.toString();
      }
      if (mode == 1) {
        int n = s.range(0, 14);
        for (int i = 0; i < n; i++) sb.append(s.pickChar(SIG));
        return sb.toString();
      }
      int n = s.range(0, 4);
      for (int i = 0; i < n; i++) sb.append(piece(s));
      if (mode == 2) {
        for (int k = s.range(1, 3); k > 0 && sb.length() > 0; k--) {
          int at = s.below(sb.length());
          switch (s.below(4)) {
            case 0:
              sb.deleteCharAt(at);
              break;
            case 1:
              sb.insert(at, s.pickChar(SIG));
              break;
            case 2:
              sb.setCharAt(at, s.pickChar(SIG));
              break;
            default:
              sb.insert(at, sb.charAt(at));
          }
        }
      }
      return sb.toString();
    }

    static void check(Case c, String f) {
      Grammar g = Grammar.parse(f);
      Out o = Out.of(() -> FastPrintf.compile(f));
      c.checks++;
      c.label(g.syntaxError ? "malformed" : g.unreadable ? "unreadable number" : g.overLimit ? "over the limit" : "well-formed");
      String what = "compiling " + Show.of(f) + " (" + f.length() + " characters)";
      if (g.syntaxError) {
        boolean ok = o.syntaxError() || ((g.overLimit || g.unreadable) && o.rejected());
        if (!ok) c.fail(what + "\n  expected: syntax error\n  actual:   " + o);
      } else if (g.unreadable) {
        if (!o.syntaxError() && !o.rejected()) c.fail(what + "\n  expected: refusal of an unreadable number\n  actual:   " + o);
      } else if (g.overLimit) {
        if (!o.rejected()) c.fail(what + "\n  expected: formatting exception for the size limit\n  actual:   " + o);
      } else if (!o.ok()) {
        c.fail(what + "\n  expected: accepted\n  actual:   " + o);
      }
      if (o.syntaxError()) {
        PrintfSyntaxException e = (PrintfSyntaxException) o.error;
        c.same(f, e.getPattern(), what + ": source reported by the exception");
        c.ok(e.getIndex() >= 0 && e.getIndex() <= f.length(), what + ": index " + e.getIndex() + " outside the source");
        c.ok(e.getMessage() != null && e.getMessage().contains(f), what + ": message does not show the source");
        c.ok(e.getDescription() != null && !e.getDescription().isEmpty(), what + ": no description");
      }
    }

    @Override
    void test(Case c) {
      String f = generate(c.src);
      c.key(f);
      c.describe(() -> "compile " + Show.of(f));
      if (f.indexOf('%') >= 0) c.nontrivial();
      if (f.length() > 1000) c.label("very long");
      check(c, f);
      if (c.src.chance(1, 16)) { // another string of the same hash code
        String t = Twin.textTwin(c.src, f);
        if (t != null) check(c, t);
      }
    }
  }

  static final class Compose extends Prop {
    Compose() {
      super("C13");
    }

    @Override
    String rule() {
      return "two generated programs A and B of literals, %%, braces and conversions with serving arguments; "
          + "the output of AB must be the output of A followed by that of B, and both must be the model's "
          + "text; sometimes repeated with another literal of the same hash code; non-trivial when there are at least three pieces including a conversion and a literal";
    }

    @Override
    int quickCases() {
      return 800000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      int max = s.chance(1, 500) ? 200 : s.chance(1, 10) ? 25 : 5;
      Program a = s.chance(1, 400) ? Program.big(s, G.CONVS, 1, 10) : Program.good(s, max, G.CONVS, 1, 10);
      Program b = Program.good(s, max, G.CONVS, 1, 10);
      if (s.chance(1, 20000)) b.add(Program.literal(G.textOf(s, G.huge(s, 1 << 21)).replace('%', '!')));
      Program ab = new Program();
      for (Program.Piece p : a.pieces) ab.add(p);
      for (Program.Piece p : b.pieces) ab.add(p);
      for (int i = 0; i < b.pieces.size(); i++) b.pieces.set(i, ab.pieces.get(a.pieces.size() + i)); // joining may have kept a brace off a %t
      ab.key(c);
      c.describe(() -> Show.of(a.format()) + " then " + Show.of(b.format()) + " with " + ab.args());
      boolean lit = false;
      boolean conv = false;
      for (Program.Piece p : ab.pieces) {
        lit |= p.literal != null;
        conv |= p.literal == null;
      }
      c.label("pieces " + (ab.pieces.size() > 20 ? ">20" : ab.pieces.size() > 5 ? "6..20" : "<=5"));
      if (lit && conv && ab.pieces.size() >= 3) c.nontrivial();
      Out oa = Out.of(() -> FastPrintf.compile(a.format()).format(Arg.args(a.args())));
      Out ob = Out.of(() -> FastPrintf.compile(b.format()).format(Arg.args(b.args())));
      Out oab = Out.of(() -> FastPrintf.compile(ab.format()).format(Arg.args(ab.args())));
      c.same(Out.text(a.text()), oa, "A = " + a.show());
      c.same(Out.text(b.text()), ob, "B = " + b.show());
      c.same(Out.text((String) oa.value + ob.value), oab, "AB = " + ab.show());
      if (!ab.pieces.isEmpty() && s.chance(1, 16)) { // the same program with another literal of the same hash code
        int k = s.below(ab.pieces.size());
        String t = ab.pieces.get(k).literal == null ? null : Twin.textTwin(s, ab.pieces.get(k).literal);
        if (t == null || t.indexOf('%') >= 0 || t.charAt(0) == '{') return;
        ab.pieces.get(k).literal = t;
        c.label("equal hash codes");
        c.same(Out.text(ab.text()), Out.of(() -> FastPrintf.compile(ab.format()).format(Arg.args(ab.args()))), "after a literal of the same hash code, " + ab.show());
      }
    }
  }

  static final class Consume extends Prop {
    Consume() {
      super("C14");
    }

    @Override
    String rule() {
      return "programs with * widths and precisions (negative, zero, of several argument types) are compared "
          + "with the model and with the same program where the numbers are written out; then once with "
          + "every shorter argument list of a random length (must be refused) and once with surplus "
          + "arguments whose every method throws; non-trivial when a * is present";
    }

    @Override
    int quickCases() {
      return 1000000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      Program p = s.chance(1, 500) ? Program.big(s, G.CONVS, 1, 2) : Program.good(s, 4, G.CONVS, 1, 2);
      p.key(c);
      c.describe(p::show);
      Program lit = new Program();
      boolean star = false;
      for (Program.Piece x : p.pieces) {
        if (x.literal != null) {
          lit.add(x);
          continue;
        }
        star |= x.starWidth != null || x.starPrec != null;
        Program.Piece y = Program.conv(x.resolved(), x.value);
        y.perm = x.perm;
        lit.add(y);
      }
      if (star) c.nontrivial();
      List<Arg> args = p.args();
      Out o = Out.of(() -> FastPrintf.compile(p.format()).format(Arg.args(args)));
      c.same(Out.text(p.text()), o, "wrong result for " + p.show());
      if (star) {
        c.same(o, Out.of(() -> FastPrintf.compile(lit.format()).format(Arg.args(lit.args()))),
            p.show() + " against the numbers written out, " + lit.show());
      }
      if (!args.isEmpty()) {
        int k = s.below(args.size());
        Out few = Out.of(() -> FastPrintf.compile(p.format()).format(Arg.args(args.subList(0, k))));
        c.ok(few.rejected(), "only " + k + " of " + args.size() + " arguments of " + p.show() + ": " + few);
      }
      List<Arg> more = new ArrayList<>(args);
      for (int k = s.range(1, 3); k > 0; k--) {
        more.add(s.bool() ? Arg.of(null) : Arg.of(new Kinds.Bomb(new Kinds.UserException("touched"), null)));
      }
      c.same(o, Out.of(() -> FastPrintf.compile(p.format()).format(Arg.args(more))), "surplus arguments for " + p.show());
      Appendable d = s.bool() ? new StringBuilder() : s.bool() ? new java.io.StringWriter() : new StringBuffer();
      Out od = Out.of(() -> FastPrintf.compile(p.format()).format(d, Arg.args(more)).toString());
      c.same(o, od, "surplus arguments for " + p.show() + " into a " + d.getClass().getSimpleName());
      if (star && p.pieces.size() < 50 && s.chance(1, 3)) {
        Program q = restarred(s, p);
        FastPrintf fp = FastPrintf.compile(p.format());
        for (int k = 0; k < 3; k++) {
          Program x = k == 1 ? q : p;
          c.same(Out.text(x.text()), Out.of(() -> fp.format(Arg.args(x.args()))), "call " + k + " of one formatter, of " + p.show() + ", " + q.show() + " and the first again");
        }
      }
    }

    /** The same with other numbers for *. */
    private static Program restarred(Src s, Program p) {
      Program r = new Program();
      for (Program.Piece x : p.pieces) {
        if (x.literal != null || x.starWidth == null && x.starPrec == null) {
          r.add(x);
          continue;
        }
        Program.Piece y = Program.conv(x.spec.copy(), x.value);
        y.perm = x.perm;
        y.starWidth = other(s, x.starWidth);
        y.starPrec = other(s, x.starPrec);
        r.add(y.expect().reject != null ? x : y);
      }
      return r;
    }

    private static Arg other(Src s, Arg star) {
      if (star == null) return null;
      int v = Model.starOf(star.value);
      int n = s.below(3);
      return Math.abs((long) v) > 60000 ? star : Program.star(s, n == 0 ? -v : n == 1 ? v + 1 : v);
    }
  }

  static final class Limit extends Prop {
    Limit() {
      super("C22");
    }

    @Override
    String rule() {
      return "widths and precisions at and around 65536, at powers of two and constants of the library, anywhere up to the limit, up to and beyond the int range, written in the format "
          + "or supplied through *, for every conversion, compared with the model; a refused call must leave the "
          + "destination at the preceding literal and allocate less than 8 MB; non-trivial when a number is "
          + "at least 1000 in magnitude";
    }

    @Override
    int quickCases() {
      return 150000;
    }

    private static final com.sun.management.ThreadMXBean MX =
        (com.sun.management.ThreadMXBean) java.lang.management.ManagementFactory.getThreadMXBean();

    @Override
    void test(Case c) {
      Src s = c.src;
      Program.Piece p = Program.conv(s, G.CONVS);
      boolean dyn = s.bool();
      boolean onWidth = s.bool();
      long n;
      switch (s.weighted(40, 20, 10, 10, 10, 10, 10)) {
        case 0:
          n = 65536 + s.range(0, 4) - 2;
          break;
        case 1:
          n = s.pick(65537L, 65600L, 70000L, 100000L, 131072L, 1L << 20, 1000000000L, (long) Integer.MAX_VALUE);
          break;
        case 2:
          n = s.range(60000, 65536);
          break;
        case 3:
          n = s.range(0, 200);
          break;
        case 4:
          n = (1 << s.range(6, 16)) + s.range(0, 2) - 1;
          break;
        case 5:
          n = G.dictSize(s, 65536);
          break;
        default:
          n = s.range(0, 65536);
      }
      String digits = Long.toString(n);
      Arg st = null;
      if (dyn) {
        int v = (int) n;
        if (onWidth && s.bool()) v = s.chance(1, 4) ? s.pickInt(Integer.MIN_VALUE, Integer.MIN_VALUE + 1, -65536, -65537) : -v;
        if (!onWidth && s.chance(1, 6)) v = s.chance(1, 3) ? s.pickInt(Integer.MIN_VALUE, Integer.MIN_VALUE + 1, -65536, -65537) : -v;
        st = Program.star(s, v);
        if (Model.starOf(st.value) != v) throw new AssertionError();
      } else if (s.chance(1, 10)) {
        digits = s.pick("2147483648", "4294967297", "99999999999", "4294967296", "18446744073709551617", Model.rep('9', 400));
      } else if (s.chance(1, 10)) {
        digits = Model.rep('0', s.range(1, 5)) + digits;
      }
      if (onWidth) p.spec.width = -1;
      else p.spec.prec = -1;
      if (p.spec.width > 300) p.spec.width = 300;
      if (p.spec.prec > 300) p.spec.prec = 300;
      if (dyn) {
        if (onWidth) p.starWidth = st;
        else p.starPrec = st;
      }
      if (p.value.value instanceof CharSequence && s.chance(1, 3)) p.value = Arg.of(G.chars(s, G.textOf(s, 65536 + s.range(0, 4) - 2)));
      String f;
      Check.Exp e;
      boolean unreadable = false;
      if (dyn) {
        f = "<" + p.format() + ">";
        e = p.expect();
      } else {
        String fl = Spec.flagText(p.spec.flags, p.perm);
        if (onWidth && digits.startsWith("0")) { // a leading zero of a width is the flag
          if (p.spec.has(Spec.ZERO)) fl = fl.replace("0", "");
          p.spec.flags |= Spec.ZERO;
          digits = digits.replaceAll("^0+", "0");
          if (digits.equals("0")) digits = "01";
        }
        StringBuilder sb = new StringBuilder("<%").append(fl);
        if (onWidth) sb.append(digits);
        else if (p.spec.width > 0) sb.append(p.spec.width);
        if (!onWidth) sb.append('.').append(digits);
        else if (p.spec.prec >= 0) sb.append('.').append(p.spec.prec);
        sb.append(p.spec.conv);
        if (p.spec.datePattern != null) sb.append('{').append(p.spec.datePattern).append('}');
        f = sb.append('>').toString();
        Grammar g = Grammar.parse(f);
        if (g.syntaxError) throw new AssertionError(f);
        unreadable = g.unreadable;
        if (g.unreadable || g.overLimit) e = new Check.Exp(null, new Reject("beyond the limit"));
        else {
          if (onWidth) p.spec.width = Integer.parseInt(digits);
          else p.spec.prec = Integer.parseInt(digits);
          e = p.expect();
        }
      }
      c.key(f);
      List<Arg> args = new ArrayList<>();
      p.args(args);
      for (Arg a : args) c.key(a.keyText());
      c.describe(() -> Show.of(f) + " with " + args);
      if (n >= 1000 || unreadable) c.nontrivial();
      c.label((dyn ? "*" : "written") + (onWidth ? " width" : " precision") + (e.reject != null ? ", refused" : ", accepted"));
      StringBuilder sb = new StringBuilder();
      long before = MX.getThreadAllocatedBytes(Thread.currentThread().getId());
      Out o = Out.of(() -> FastPrintf.compile(f).format(sb, Arg.args(args)).toString());
      long used = MX.getThreadAllocatedBytes(Thread.currentThread().getId()) - before;
      if (e.reject == null) {
        c.same(Out.text("<" + e.text + ">"), o, "wrong result for " + Show.of(f) + " with " + args);
      } else {
        boolean ok = Check.refused(o, e.reject) || (unreadable && o.syntaxError());
        if (!ok) c.fail("not refused: " + Show.of(f) + " with " + args + "\n  expected: " + e + "\n  actual:   " + o);
        c.ok(sb.length() == 0 || sb.toString().equals("<"), "a refused conversion left " + Show.of(sb.toString()));
        c.ok(used < (8L << 20), "a refused call allocated " + used + " bytes");
      }
    }
  }

  static final class Pointers extends Prop {
    Pointers() {
      super("C23");
    }

    @Override
    String rule() {
      return "%p of random objects (with throwing or lying own methods, boxed and primitive values, null), %n "
          + "and %% with random flags, width, precision, compared with the model; non-trivial when the "
          + "object overrides its own methods, is boxed or a width is given";
    }

    @Override
    int quickCases() {
      return 3000000;
    }

    /** Every overridable method misbehaves. */
    static final class Evil {
      @Override
      public boolean equals(Object o) {
        throw new Kinds.UserException("equals called");
      }

      @Override
      public int hashCode() {
        throw new Kinds.UserException("hashCode called");
      }

      @Override
      public String toString() {
        throw new Kinds.UserException("toString called");
      }
    }

    enum Bodied {
      ONE {
        @Override
        int value() {
          return 1;
        }
      },
      TWO;

      int value() {
        return 2;
      }
    }

    static class $Strange$Name_9 {}

    /** Objects of classes made by the compiler or the runtime, whose names look unusual. */
    static Object named(Src s) {
      switch (s.below(12)) {
        case 0:
          return (Runnable) () -> {};
        case 1:
          return (java.util.function.Supplier<?>) "text"::toString;
        case 2:
          return new Object() {};
        case 3:
          class Local {}
          return new Local();
        case 4:
          return s.bool() ? Bodied.ONE : Bodied.TWO;
        case 5:
          return new $Strange$Name_9();
        case 6:
          return new int[s.below(3)][s.below(3)][0];
        case 7:
          return s.bool() ? String.class : Override.class;
        case 8:
          return new Evil[s.below(2)];
        case 9:
          return Thread.currentThread();
        case 10:
          return java.util.Collections.emptyMap();
        default:
          return new java.util.HashMap<Object, Object>().entrySet().iterator();
      }
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      char conv = s.pickChar("ppn");
      Spec sp = G.spec(s, conv);
      Arg a;
      boolean named = s.chance(1, 6);
      switch (named ? -1 : s.below(6)) {
        case -1:
          a = Arg.of(named(s));
          break;
        case 0:
          a = Arg.of(new Evil());
          break;
        case 1:
          a = Arg.of(new Kinds.Obj("text"));
          break;
        case 2:
          a = s.bool() ? Arg.of(null) : Arg.of(new String("abc"));
          break;
        case 3:
          a = s.bool() ? G.otherObject(s) : Arg.of(new Kinds.Bomb(new Kinds.UserException("called"), null));
          break;
        default:
          a = G.any(s);
      }
      boolean evil = named || a.value instanceof Evil || a.value instanceof Kinds.Bomb;
      String shown = evil ? a.value.getClass().getName() : a.show();
      String lit = s.chance(1, 3) ? "%%" : s.chance(1, 3) ? G.textOf(s, s.range(0, 4)).replace("%", "%%") : "";
      String f = lit + sp.text(s.below(6), false, false) + "%%";
      c.key(f);
      c.key(shown);
      c.describe(() -> Show.of(f) + " with " + shown);
      c.label("%" + conv + (a.primitive ? " primitive" : a.value == null ? " null" : evil ? " misbehaving" : " object"));
      if (evil || a.value instanceof Number || sp.width > 0) c.nontrivial();
      Check.Exp e = Check.expect(sp, a);
      if (e.reject == null) e = new Check.Exp(lit.replace("%%", "%") + e.text + "%", null);
      int how = s.below(3);
      Out o = Out.of(() -> {
        Args args = Args.create();
        if (how == 0) a.put(args);
        else if (how == 1 && !evil) a.putTyped(args);
        else if (a.primitive) a.put(args);
        else args = Args.of(new Object[] {a.value});
        return FastPrintf.compile(f).format(args);
      });
      Check.agree(c, e, o, "wrong result for " + Show.of(f) + " with " + shown);
      if (!evil && s.chance(1, 12)) {
        String bare = sp.text(s.below(6), false, false);
        Check.after(c, sp, bare, a, Check.expect(sp, a));
      }
    }
  }

  static final class Mixed extends Prop {
    Mixed() {
      super("C27");
    }

    @Override
    String rule() {
      return "every conversion paired with an argument of any type (numbers, booleans, characters, numeric and "
          + "other text, dates, arrays, custom numbers with unrelated views, null) compared with the model's "
          + "conversion rules, refusals included; non-trivial when the type is not the conversion's own";
    }

    @Override
    int quickCases() {
      return 5000000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      Spec sp = G.anySpec(s);
      if (s.chance(1, 2)) {
        sp.width = -1;
        sp.flags = 0;
      }
      Arg a = G.any(s);
      if (s.chance(1, 12)) {
        a = Arg.of(s.pick((Object) java.time.Instant.MAX, java.time.Instant.MIN, java.time.LocalDate.of(2024, 2, 29),
            new java.util.Date(Long.MAX_VALUE), new java.util.Date(-1), java.time.Instant.ofEpochMilli(-1), new int[0], new Object[] {null},
            new java.math.BigDecimal("1e30"), new java.math.BigDecimal("-0.9"), Float.MAX_VALUE, -1e300, Double.NaN, 1e19, "1e3", "0x1p3",
            java.time.Month.MAY, java.time.Year.of(2020), "9223372036854775808", "-9223372036854775808", "1.0", true, '￿'));
      }
      if (s.chance(1, 100)) { // around the moments whose milliseconds are the least and greatest long
        java.time.Instant i = java.time.Instant.ofEpochMilli(s.bool() ? Long.MIN_VALUE : Long.MAX_VALUE);
        i = i.plusNanos((s.range(0, 4000) - 2000) * (s.bool() ? 1_000_000L : 1L));
        a = Arg.of(s.bool() ? i : i.atOffset(java.time.ZoneOffset.ofHours(s.range(0, 20) - 10)));
      }
      if (s.chance(1, 6)) {
        // as a * width or precision
        starArgument(c, s, a);
        return;
      }
      Out o = Check.conv(c, sp, s.below(6), a);
      c.label("%" + sp.conv + (o.ok() ? " accepted" : " refused"));
      c.label("type " + (a.value == null ? "null" : a.value.getClass().getSimpleName()));
      boolean own = sp.isInt() ? a.value instanceof Integer || a.value instanceof Long : sp.isFloat() ? a.value instanceof Double : a.value instanceof String;
      if (!own) c.nontrivial();
    }

    private static void starArgument(Case c, Src s, Arg a) {
      boolean w = s.bool();
      Program.Piece p = Program.conv(new Spec(), Arg.of("abcdefghij"));
      p.spec.conv = 's';
      if (w) p.starWidth = a;
      else p.starPrec = a;
      c.key(p.format());
      c.key(a.keyText());
      c.describe(() -> Show.of(p.format()) + " with " + a.show());
      c.nontrivial();
      c.label("as *");
      List<Arg> args = new ArrayList<>();
      p.args(args);
      Check.agree(c, p.expect(), Out.of(() -> FastPrintf.compile(p.format()).format(Arg.args(args))),
          "wrong result for " + Show.of(p.format()) + " with " + args);
    }
  }

  static final class UpperCase extends Prop {
    UpperCase() {
      super("C28");
    }

    @Override
    String rule() {
      return "an upper-case conversion and its lower-case form with the same flags, width, precision and "
          + "argument (accepted or not) are run; the first must be the second with a-z mapped to A-Z, or "
          + "both must fail alike; non-trivial when the lower-case text contains a letter";
    }

    @Override
    int quickCases() {
      return 4000000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      char up = s.pickChar("XFEGAST");
      Spec sp = G.spec(s, up);
      if (up == 'T' && s.chance(2, 3)) {
        sp.datePattern = s.chance(1, 3) ? s.pick("EEEE d MMMM", "MMM", "a h", "'straße' HH", "'ıi' HH", "EEE") : G.datePattern(s);
      }
      Arg a = s.chance(1, 4) ? G.any(s) : G.natural(s, up);
      Spec lowSpec = sp.withConv(Character.toLowerCase(up));
      int perm = s.below(6);
      String fu = sp.text(perm, false, false);
      String fl = lowSpec.text(perm, false, false);
      c.key(fu);
      c.key(a.keyText());
      c.describe(() -> Show.of(fu) + " against " + Show.of(fl) + " with " + a.show());
      c.label("%" + up);
      Out l = Out.of(() -> FastPrintf.compile(fl).format(Arg.args(a)));
      Out u = Out.of(() -> FastPrintf.compile(fu).format(Arg.args(a)));
      if (!l.ok()) {
        c.label("refused");
        c.same(l, u, Show.of(fu) + " against " + Show.of(fl) + " with " + a.show());
        return;
      }
      String t = (String) l.value;
      String m = Model.upper(t);
      if (!m.equals(t)) c.nontrivial();
      c.same(Out.text(m), u, Show.of(fu) + " against " + Show.of(fl) + " with " + a.show());
      // through the other rendering path
      Out v = Out.of(() -> FastPrintf.compile(fu).format(new StringBuffer(), Arg.args(a)).toString());
      c.same(Out.text(m), v, Show.of(fu) + " into a StringBuffer, with " + a.show());
    }
  }

  static final class Dates extends Prop {
    Dates() {
      super("C21");
    }

    @Override
    String rule() {
      return "%t/%T with and without pattern (numeric, text, quoted braces, optional parts, random letters) and "
          + "moments of every supported type are compared with java.time formatting of the same moment in "
          + "the system zone (America/St_Johns, switched to other zones in part of the cases), java.sql types, other calendar systems and user-defined moments included; unsupported combinations must be refused; "
          + "non-trivial when the value is accepted";
    }

    @Override
    int quickCases() {
      return 2500000;
    }

    private static final java.util.concurrent.locks.ReentrantReadWriteLock ZONE = new java.util.concurrent.locks.ReentrantReadWriteLock();

    /** Compiled under one system zone, used under another and then once more under the first. */
    private static Out moved(Case c, Spec sp, Src s, Arg a) {
      java.util.TimeZone home = java.util.TimeZone.getDefault();
      java.util.TimeZone z1 = java.util.TimeZone.getTimeZone(s.pick("UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati"));
      java.util.TimeZone z2 = java.util.TimeZone.getTimeZone(s.pick("Pacific/Apia", "Europe/Berlin", "Etc/GMT+12", "UTC"));
      String f = sp.text(s.below(6), false, false);
      String what = Show.of(f) + " of " + a + ", system zones " + z1.getID() + ", " + z2.getID();
      c.key(what);
      c.describe(() -> what);
      try {
        java.util.TimeZone.setDefault(z1);
        FastPrintf fp = FastPrintf.compile(f);
        List<Arg> l = java.util.Collections.singletonList(a);
        java.util.TimeZone.setDefault(z2);
        Check.agree(c, Check.expect(sp, a), Out.of(() -> fp.format(Arg.args(l))), what + ", in the second");
        java.util.TimeZone.setDefault(z1);
        Out o = Out.of(() -> fp.format(Arg.args(l)));
        Check.agree(c, Check.expect(sp, a), o, what + ", in the first");
        return o;
      } finally {
        java.util.TimeZone.setDefault(home);
      }
    }

    private static String pattern(Src s) {
      switch (s.below(6)) {
        case 5: { // every pattern letter
          StringBuilder sb = new StringBuilder();
          for (int k = s.range(1, 5); k > 0; k--) {
            String g = s.pick("uuuu", "uu", "y", "yyy", "yyyyy", "MM", "M", "MMM", "MMMM", "MMMMM", "LL", "d", "dd", "D", "DDD", "Q", "QQ", "QQQ", "QQQQ",
                "q", "Y", "YYYY", "w", "ww", "W", "E", "EEEE", "EEEEE", "e", "ee", "c", "F", "a", "h", "hh", "K", "k", "kk", "H", "HH", "m", "mm", "s", "ss",
                "S", "SSS", "SSSSSS", "SSSSSSSSS", "A", "n", "N", "VV", "z", "zzzz", "O", "OOOO", "X", "XX", "XXX", "XXXXX", "x", "xx", "xxx", "Z", "ZZZZ",
                "ZZZZZ", "G", "GGGG", "B", "g", "ppp3".substring(0, 3) + "H");
            sb.append(g).append(s.pick("", " ", ":", "-", "'q'", "'}'", "''", "%", "\u00e9", "'{%d}'"));
          }
          return s.chance(1, 6) ? "[" + sb + "]" : sb.toString();
        }
        case 0:
        case 1:
          return G.datePattern(s);
        case 2:
          return s.pick("EEEE d MMMM uuuu", "MMM", "a h:mm", "VV", "xxx", "Z", "z", "G yyyy", "O", "EEE, d MMM yyyy HH:mm:ss Z",
              "'}'", "'}}'HH'{'", "''", "'a''}''b' mm", "e", "w", "LLL", "XXX'}'", "yyyy-MM-dd'T'HH:mm[:ss[.SSS]]", "'%s' ss", "HH'%n'", "pp5H");
        case 3: { // random letters
          StringBuilder sb = new StringBuilder();
          for (int k = s.range(1, 4); k > 0; k--) {
            char ch = s.pickChar("uyMdHhmsSnADkKaEGx");
            for (int j = s.range(1, 4); j > 0; j--) sb.append(ch);
            sb.append(s.pick("", " ", ":", "-", "'q'", "'}'", "''", "[", "]"));
          }
          return sb.toString();
        }
        default: { // quoted text with braces
          String t = G.textOf(s, s.chance(1, 1500) ? G.huge(s, 1 << 16) : s.chance(1, 100) ? s.range(50, 2000) : s.range(0, 6)).replace("'", "''").replace("%", "");
          return "HH'" + (t.isEmpty() ? "x" : t) + "}'mm";
        }
      }
    }

    private static void directed(Case c) {
        Check.directed(c, "%t", new java.sql.Date(1000), "%t", new java.sql.Time(1000), "%t{HH}", java.time.Instant.EPOCH,
          "%t{HH}", new java.util.Date(0), "%t{yyyy}", 0L, "%t", -1L, "%t", -1, "%t", java.time.Instant.MAX, "%t{HH}", java.time.LocalDate.of(2020, 1, 1),
          "%t", java.time.LocalTime.NOON, "%t{HH}", java.time.LocalTime.NOON, "%T{'abc'HH}", java.time.LocalTime.NOON,
          "%t", 4294967295L, "%t", 4294967296L, "%t", java.math.BigInteger.valueOf(4294967296L), "%t", "2020", "%t", null, "%t", 1.5,
          "%t{yyyy}", java.time.LocalTime.NOON, "%40t", java.time.LocalDate.of(2020, 1, 1), "%-40.2t", java.time.LocalDate.of(2020, 1, 1));
      c.nontrivial();
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      if (s.below(100) == 99) {
        ZONE.readLock().lock();
        try {
          directed(c);
        } finally {
          ZONE.readLock().unlock();
        }
        return;
      }
      Spec sp = G.spec(s, s.bool() ? 'T' : 't');
      if (s.chance(2, 3)) {
        sp.datePattern = pattern(s);
        try {
          java.time.format.DateTimeFormatter.ofPattern(sp.datePattern);
        } catch (RuntimeException e) {
          sp.datePattern = "HH";
        }
      }
      Arg a = s.chance(1, 10) ? G.any(s) : s.chance(1, 8) ? G.rareTimeArg(s) : G.timeArg(s, false);
      if (s.chance(1, 50)) a = Arg.of(s.pick(java.time.Instant.MAX, java.time.Instant.MIN));
      Out o;
      boolean move = s.chance(1, 40);
      (move ? ZONE.writeLock() : ZONE.readLock()).lock();
      try {
        o = move ? moved(c, sp, s, a) : Check.conv(c, sp, s.below(6), a);
        if (sp.datePattern != null && o.ok() && s.chance(1, 16)) { // two patterns with the same hash code
          String base = sp.datePattern;
          sp.datePattern = base + " 'Aa'";
          Check.conv(c, sp, 0, a);
          sp.datePattern = base + " 'BB'";
          Check.conv(c, sp, 0, a);
        }
      } finally {
        (move ? ZONE.writeLock() : ZONE.readLock()).unlock();
      }
      c.label(a.value == null ? "null" : a.value.getClass().getSimpleName());
      if (move) c.label("system zone changed");
      c.label(sp.datePattern == null ? "no pattern" : sp.datePattern.indexOf('}') >= 0 ? "pattern with brace" : "pattern");
      c.label(o.ok() ? "shown" : "refused");
      if (o.ok()) c.nontrivial();
    }
  }
}
