package pbt;

import io.fastprintf.FastPrintf;
import io.fastprintf.Flag;
import io.fastprintf.FormatContext;
import io.fastprintf.Specifier;
import io.fastprintf.appender.Appender;
import io.fastprintf.appender.DefaultAppender;
import io.fastprintf.appender.FixedStringAppender;
import io.fastprintf.traits.FormatTraits;
import java.time.format.DateTimeFormatter;
import java.util.ArrayList;
import java.util.EnumSet;
import java.util.Iterator;
import java.util.List;

/** C36: contexts and conversion parts used on their own. */
final class BuildProps extends Prop {

  BuildProps() {
    super("C36");
  }

  @Override
  String rule() {
    return "contexts are created and derived from each other in generated order, flag sets passed in and handed out are changed, refused numbers are tried; every context is read back at the end. "
        + "A generated program is rebuilt from parts made of such contexts and run over one argument iterator, twice, and each part's own text is compiled again; all against the model; "
        + "non-trivial when at least two contexts were derived and two parts run";
  }

  @Override
  int quickCases() {
    return 800000;
  }

  /** What a context must say of itself. */
  private static final class Want {
    final FormatContext context;
    final int flags;
    final int width;
    final int prec;
    final DateTimeFormatter date;

    Want(FormatContext context, int flags, int width, int prec, DateTimeFormatter date) {
      this.context = context;
      this.flags = flags;
      this.width = width;
      this.prec = prec;
      this.date = date;
    }

    void check(Case c, String log) {
      c.checks++;
      String what = " of context (" + Spec.flagText(flags, 0) + ", " + width + ", " + prec + ") after " + log;
      c.ok(context.getWidth() == width && context.isWidthSet() == (width != -1) && context.isPrecedingWidth() == (width == Integer.MIN_VALUE), "width " + context.getWidth() + what);
      c.ok(context.getPrecision() == prec && context.isPrecisionSet() == (prec != -1) && context.isPrecedingPrecision() == (prec == Integer.MIN_VALUE), "precision " + context.getPrecision() + what);
      c.ok(context.getDateTimeFormatter() == date, "date formatter" + what);
      c.ok(context.getFlags().equals(set(flags)), "flags " + context.getFlags() + what);
      for (int i = 0; i < 5; i++) c.ok(context.hasFlag(flag("-+ 0#".charAt(i))) == ((flags & bit("-+ 0#".charAt(i))) != 0), "flag '" + "-+ 0#".charAt(i) + "'" + what);
    }
  }

  private static Flag flag(char f) {
    return f == '-' ? Flag.LEFT_JUSTIFY : f == '+' ? Flag.PLUS : f == ' ' ? Flag.LEADING_SPACE : f == '0' ? Flag.ZERO_PAD : Flag.ALTERNATE;
  }

  private static Specifier specifier(char conv) {
    String t = conv == 'i' ? "d" : String.valueOf(conv);
    for (Specifier x : Specifier.values()) if (x.toString().equals(t)) return x;
    throw new AssertionError(t);
  }

  private static int bit(char f) {
    return f == '-' ? Spec.MINUS : f == '+' ? Spec.PLUS : f == ' ' ? Spec.SPACE : f == '0' ? Spec.ZERO : Spec.HASH;
  }

  private static EnumSet<Flag> set(int flags) {
    EnumSet<Flag> r = EnumSet.noneOf(Flag.class);
    for (char f : Spec.flagText(flags, 0).toCharArray()) r.add(flag(f));
    return r;
  }

  private static int number(Src s) {
    switch (s.weighted(10, 3, 3, 2, 1)) {
      case 0:
        return s.range(0, 40);
      case 1:
        return -1;
      case 2:
        return Integer.MIN_VALUE;
      case 3:
        return s.pickInt(65536, 65535, 1000, 127, 128, 255, 256);
      default:
        return G.dictSize(s, 65536);
    }
  }

  /** A context for the piece, reached by creating one and deriving from it in some order. */
  private static Want build(Case c, Src s, int flags, int width, int prec, DateTimeFormatter date, List<Want> all, StringBuilder log) {
    boolean later = s.bool();
    int f0 = s.chance(1, 3) ? flags : flags & s.below(32);
    int w0 = s.bool() ? width : number(s);
    int p0 = s.bool() ? prec : number(s);
    FormatContext x;
    log.append("; create(").append(Spec.flagText(f0, 0)).append(", ").append(w0).append(", ").append(p0).append(')');
    if (date == null && s.bool()) {
      String t = Spec.flagText(f0, s.below(6));
      if (s.chance(1, 4)) t += t;
      if (w0 == -1 && p0 == -1 && s.bool()) x = FormatContext.create(t);
      else x = FormatContext.create(t.isEmpty() && s.bool() ? null : t, w0, p0);
    } else {
      EnumSet<Flag> fs = set(f0);
      x = FormatContext.create(fs, w0, p0, date);
      if (later) fs.add(Flag.values()[s.below(5)]); // no longer matters
      else if (s.bool()) fs.clear();
    }
    Want cur = new Want(x, f0, w0, p0, date);
    all.add(cur);
    List<Integer> todo = new ArrayList<>();
    if (w0 != width || s.chance(1, 6)) todo.add(0);
    if (p0 != prec || s.chance(1, 6)) todo.add(1);
    for (int i = 0; i < 5; i++) if ((flags & ~f0 & bit("-+ 0#".charAt(i))) != 0 || (flags & bit("-+ 0#".charAt(i))) != 0 && s.chance(1, 6)) todo.add(2 + i);
    while (!todo.isEmpty()) {
      int op = todo.remove(s.below(todo.size()));
      if (s.chance(1, 8)) { // a set handed out is the caller's own
        EnumSet<Flag> out = cur.context.getFlags();
        if (s.bool()) out.clear();
        else out.add(Flag.values()[s.below(5)]);
      }
      if (s.chance(1, 8)) { // another branch, not used further
        int n = number(s);
        log.append("; aside ").append(n);
        all.add(s.bool() ? new Want(cur.context.setWidth(n), cur.flags, n, cur.prec, date) : new Want(cur.context.setPrecision(n), cur.flags, cur.width, n, date));
      }
      if (s.chance(1, 12)) {
        int n = s.bool() ? s.pickInt(65537, 65538, 100000, Integer.MAX_VALUE) : -2 - s.pickInt(0, 1, 100, 65534, 65535, Integer.MAX_VALUE - 2);
        FormatContext y = cur.context;
        int k = s.below(4);
        Out o = Out.of(() -> k == 0 ? y.setWidth(n) : k == 1 ? y.setPrecision(n) : k == 2 ? FormatContext.create(set(1), n, 3, null) : FormatContext.create("-", 3, n));
        c.ok(o.rejected(), (k % 2 == 0 ? "width " : "precision ") + n + " gave " + o);
        c.label("refused number");
      }
      switch (op) {
        case 0:
          log.append("; setWidth(").append(width).append(')');
          cur = new Want(cur.context.setWidth(width), cur.flags, width, cur.prec, date);
          break;
        case 1:
          log.append("; setPrecision(").append(prec).append(')');
          cur = new Want(cur.context.setPrecision(prec), cur.flags, cur.width, prec, date);
          break;
        default: {
          char f = "-+ 0#".charAt(op - 2);
          log.append("; addFlag(").append(f).append(')');
          cur = new Want(cur.context.addFlag(flag(f)), cur.flags | bit(f), cur.width, cur.prec, date);
        }
      }
      all.add(cur);
    }
    c.ok(cur.flags == flags && cur.width == width && cur.prec == prec, "error in the harness");
    return cur;
  }

  @Override
  void test(Case c) {
    Src s = c.src;
    Program p = Program.good(s, s.chance(1, 10) ? 8 : 3, "diuoxXfFeEgGaAcsStTpn", 1, 5);
    if (s.chance(1, 6)) p.add(Program.conv(G.anySpec(s), G.any(s)));
    p.key(c);
    StringBuilder log = new StringBuilder(p.show());
    c.describe(log::toString);
    List<Want> all = new ArrayList<>();
    List<Appender> parts = new ArrayList<>();
    int derived = 0;
    for (Program.Piece x : p.pieces) {
      if (x.literal != null) {
        FixedStringAppender a = new FixedStringAppender(x.literal);
        c.same(x.literal, a.getValue(), "text of a literal part");
        parts.add(a);
        continue;
      }
      Spec sp = x.spec;
      DateTimeFormatter d = sp.datePattern == null ? null : DateTimeFormatter.ofPattern(sp.datePattern);
      int before = all.size();
      Want w = build(c, s, sp.flags, x.starWidth != null ? Integer.MIN_VALUE : sp.width, x.starPrec != null ? Integer.MIN_VALUE : sp.prec, d, all, log);
      derived += all.size() - before - 1;
      Specifier z = specifier(sp.conv);
      FormatContext context = w.context;
      if (d == null && s.chance(1, 10)) {
        context = Ser.copy(c, context);
        new Want(context, w.flags, w.width, w.prec, null).check(c, "read back: " + log);
        c.label("read back");
      }
      DefaultAppender a = new DefaultAppender(z, context);
      c.ok(a.getSpecifier() == z, "specifier of a part: " + a.getSpecifier() + " instead of " + z);
      new Want(a.getContext(), w.flags, w.width, w.prec, d).check(c, log.toString());
      parts.add(a);
      if (d == null && w.width != 0 && sp.conv != '%') { // its own text is a format
        String t = w.context.toPatternString(z);
        List<Arg> as = new ArrayList<>();
        x.args(as);
        Check.agree(c, x.expect(), Out.of(() -> FastPrintf.compile(t).format(Arg.args(as))), "the part's text " + Show.of(t) + " as a format, with " + as + ", " + log);
        c.same(t, a.toString(), "text of the part");
      }
    }
    if (derived >= 2 && parts.size() >= 2) c.nontrivial();
    int ok = p.failing();
    String exp = p.text(ok);
    for (int round = 0; round < 2; round++) {
      Iterator<FormatTraits> it = Arg.args(p.args()).iterator();
      StringBuilder sb = new StringBuilder();
      int[] done = {0};
      Out o = Out.of(() -> {
        for (Appender a : parts) {
          a.append(q -> sb.append(q.toString()), it);
          done[0]++;
        }
        return sb.toString();
      });
      if (ok == parts.size()) {
        c.same(Out.text(exp), o, "parts run, time " + round + ", " + log);
        c.ok(!it.hasNext(), "arguments left by " + log);
      } else {
        c.label("refused argument");
        c.checks++;
        c.ok(Check.refused(o, p.pieces.get(ok).expect().reject) && done[0] == ok, "part " + ok + " of " + log + " gave " + o + " in part " + done[0]);
        c.same(exp, sb.toString(), "text before the refused argument of " + log);
      }
    }
    for (Want w : all) w.check(c, log.toString());
  }
}
