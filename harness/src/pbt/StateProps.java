package pbt;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.io.BufferedWriter;
import java.io.ByteArrayOutputStream;
import java.io.CharArrayWriter;
import java.io.IOException;
import java.io.OutputStreamWriter;
import java.io.PrintStream;
import java.io.PrintWriter;
import java.io.StringWriter;
import java.io.UncheckedIOException;
import java.io.Writer;
import java.nio.CharBuffer;
import java.time.Instant;
import java.time.temporal.TemporalAccessor;
import java.time.temporal.TemporalField;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Iterator;
import java.util.LinkedList;
import java.util.List;

/** C15, C16, C18, C19, C20: destinations, histories, argument lists, failures. */
final class StateProps {
  private StateProps() {}

  /** Another set of arguments for the same format. */
  static Program refill(Src s, Program p) {
    Program r = new Program();
    for (Program.Piece x : p.pieces) {
      if (x.literal != null) {
        r.pieces.add(x);
        continue;
      }
      Program.Piece y = Program.conv(x.spec.copy(), G.natural(s, x.spec.conv));
      y.perm = x.perm;
      if (x.starWidth != null) y.starWidth = Program.star(s, s.range(0, 40) - 20);
      if (x.starPrec != null) y.starPrec = Program.star(s, s.range(0, 24) - 4);
      if (y.expect().reject != null) {
        char c = y.spec.lowerConv();
        y.value = Arg.of(c == 't' ? (Object) Instant.ofEpochSecond(s.below(100000)) : c == 'c' || c == 's' ? "x" : c == 'p' ? null : (Object) s.below(1000));
      }
      r.pieces.add(y);
    }
    return r;
  }

  /** The same conversions with arguments that are easily mistaken for the given ones, where possible. */
  static Program nearly(Src s, Program p) {
    Program r = new Program();
    for (Program.Piece x : p.pieces) {
      Arg v = x.literal != null ? null : Twin.near(s, x.value);
      if (v == null) {
        r.pieces.add(x);
        continue;
      }
      Program.Piece y = Program.conv(x.spec.copy(), v);
      y.perm = x.perm;
      y.starWidth = x.starWidth;
      y.starPrec = x.starPrec;
      r.pieces.add(y.expect().reject != null ? x : y);
    }
    return r;
  }

  // ------------------------------------------------------------------ C15

  static final class Destinations extends Prop {
    Destinations() {
      super("C15");
    }

    @Override
    String rule() {
      return "a generated program with serving arguments is written to every kind of destination (builder with "
          + "random prior content and capacity, buffer, string/print/buffered/char-array writers, char buffer, "
          + "print stream, user-defined appendable and writer) through differently built argument lists; all must "
          + "hold prior content plus the model's text; non-trivial when there are at least two pieces";
    }

    @Override
    int quickCases() {
      return 400000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      Program p = s.chance(1, 800) ? Program.big(s, G.CONVS, 1, 6) : Program.good(s, s.chance(1, 10) ? 12 : 4, G.CONVS, 1, 6);
      if (s.chance(1, 400)) p.add(Program.conv(Grammar.spec(s.pick("%70s", "%65536s", "%-9000d", "%09000x", "%.5000f", "%5000c")), Arg.of(7)));
      if (s.chance(1, 400)) p.add(Program.literal(G.textOf(s, s.chance(1, 30) ? G.huge(s, 1 << 21) : s.pickInt(255, 256, 257, 1023, 1024, 1025, 4096, 70000))));
      String f = p.format();
      String exp = p.text();
      List<Arg> as = p.args();
      p.key(c);
      c.describe(p::show);
      if (p.pieces.size() >= 2) c.nontrivial();
      FastPrintf fp = FastPrintf.compile(f);
      if (s.bool()) fp = fp.enableThreadLocalCache();
      FastPrintf g = fp;
      String prior = s.chance(1, 2) ? "" : s.chance(1, 8000) ? G.textOf(s, G.huge(s, 1 << 20)) : G.textOf(s, s.pickInt(1, 3, 15, 16, 17, 40));
      Args[] built = {build(s, as), build(s, as), build(s, as)};
      String what = p.show();
      c.same(Out.text(exp), Out.of(() -> g.format(built[0])), "returned string for " + what);
      Object[] boxed = new Object[as.size()];
      boolean pointer = false; // %p tells primitives from boxes
      for (int i = 0; i < boxed.length; i++) boxed[i] = as.get(i).value;
      for (Program.Piece x : p.pieces) pointer |= x.literal == null && x.spec.conv == 'p';
      if (!pointer) c.same(Out.text(exp), Out.of(() -> g.format(boxed)), "varargs for " + what);
      Appendable[] ds = new Appendable[11];
      ds[0] = new StringBuilder(s.pickInt(0, 1, 16, 100)).append(prior);
      ds[1] = new StringBuffer(s.pickInt(0, 1, 16, 100)).append(prior);
      ds[2] = new StringWriter();
      ds[3] = new Sinks.Plain(null);
      ds[4] = new Sinks.W(null);
      StringWriter behindPrint = new StringWriter();
      ds[5] = new PrintWriter(behindPrint);
      CharArrayWriter behindBuffer = new CharArrayWriter();
      ds[6] = new BufferedWriter(behindBuffer, s.pickInt(1, 8, 64));
      CharBuffer cb = CharBuffer.allocate(prior.length() + exp.length() + s.below(5));
      ds[7] = cb;
      ds[8] = new CharArrayWriter();
      ByteArrayOutputStream bytes = new ByteArrayOutputStream();
      ByteArrayOutputStream encoded = new ByteArrayOutputStream();
      String charset = charset(s, exp + prior);
      String second = charset == null ? null : charset(s, exp + prior);
      try {
        ds[9] = charset != null ? new PrintStream(bytes, s.bool(), charset) : new StringBuilder(prior);
        ds[10] = second != null ? new OutputStreamWriter(encoded, second) : new StringBuilder(prior);
        for (int i = 2; i < 11; i++) if (!(ds[i] instanceof StringBuilder)) ds[i].append(prior);
      } catch (IOException e) {
        throw new AssertionError(e);
      }
      for (int i = 0; i < ds.length; i++) {
        Appendable d = ds[i];
        Args a = built[i % 3];
        Out o = Out.of(() -> g.format(d, a));
        String name = i == 3 ? "user-defined appendable" : i == 4 ? "user-defined writer" : d.getClass().getSimpleName();
        c.ok(o.ok() && o.value == d, "writing " + what + " to a " + name + " gave " + (o.ok() ? "another object" : o.toString()));
        String got;
        try {
          if (i == 5) ((PrintWriter) d).flush();
          if (i == 6) ((BufferedWriter) d).flush();
          if (i == 10 && second != null) ((OutputStreamWriter) d).flush();
        } catch (IOException e) {
          throw new AssertionError(e);
        }
        switch (i) {
          case 3:
          case 4:
            got = ((Sinks.Recording) d).text().toString();
            break;
          case 5:
            got = behindPrint.toString();
            break;
          case 6:
            got = behindBuffer.toString();
            break;
          case 7:
            ((java.nio.Buffer) cb).flip();
            got = cb.toString();
            break;
          case 9:
            if (charset != null) ((PrintStream) d).flush();
            got = charset == null ? d.toString() : decoded(bytes, charset);
            break;
          case 10:
            got = second == null ? d.toString() : decoded(encoded, second);
            break;
          default:
            got = d.toString();
        }
        c.same(prior + exp, got, "content of a " + name + " after " + what);
      }
      if (p.pieces.size() < 2000 && s.chance(1, 4)) within(c, s, g, p, what);
    }

    /** An encoding that keeps the text, or null when it contains surrogates or byte order marks. */
    private static String charset(Src s, String t) {
      for (int i = 0; i < t.length(); i++) if (Character.isSurrogate(t.charAt(i)) || t.charAt(i) == '\ufeff' || t.charAt(i) == '\ufffe') return null;
      return ascii(t) && s.bool() ? "US-ASCII" : s.pick("UTF-8", "UTF-16BE", "UTF-16LE", "UTF-32BE");
    }

    private static String decoded(ByteArrayOutputStream bytes, String charset) {
      try {
        return new String(bytes.toByteArray(), charset);
      } catch (java.io.UnsupportedEncodingException e) {
        throw new AssertionError(e);
      }
    }

    private static boolean ascii(String s) {
      for (int i = 0; i < s.length(); i++) if (s.charAt(i) > 126) return false;
      return true;
    }
  }

  /** A destination that uses the same formatter itself while it is being written to. */
  static void within(Case c, Src s, FastPrintf g, Program p, String what) {
    Program q = refill(s, p);
    String exp = p.text();
    String inner = q.text();
    int at = s.below(4);
    int way = s.below(4);
    int[] n = {0};
    boolean[] busy = {false};
    StringBuilder got = new StringBuilder();
    FastPrintf h = s.chance(1, 4) ? FastPrintf.compile(q.format()) : g;
    String where = ", while the destination of " + what + " formats " + q.args() + " through the " + (g == h ? "same formatter" : "like formatter");
    Appendable d = Sinks.busy(got, s.bool(), () -> {
      if (n[0]++ < at || n[0] > at + 3 || busy[0]) return;
      busy[0] = true;
      Args a = Arg.args(q.args());
      Out o;
      StringBuilder in = new StringBuilder();
      if (way == 0) o = Out.of(() -> h.format(a));
      else if (way == 1) o = Out.of(() -> h.format(in, a).toString());
      else if (way == 2) o = Out.of(() -> h.format(Sinks.busy(in, true, () -> {}), a) == null ? null : in.toString());
      else {
        o = Out.of(() -> h.format(new Object[0]));
        if (q.arity() == 0) c.same(Out.text(inner), o, "inner call" + where);
        o = null;
      }
      busy[0] = false;
      if (o != null) c.same(Out.text(inner), o, "inner call" + where);
    });
    Out o = Out.of(() -> g.format(d, Arg.args(p.args())) == d);
    c.ok(o.ok() && o.value == Boolean.TRUE, "outer call" + where + " gave " + o);
    c.same(exp, got.toString(), "outer call" + where);
    c.label("busy destination");
  }

  /** An argument list built in a random way (primitives stay primitives). */
  static Args build(Src s, List<Arg> as) {
    Args r = s.bool() ? Args.create() : Args.createWithExpectedSize(s.below(4));
    boolean typed = s.bool();
    for (Arg a : as) {
      if (typed) a.putTyped(r);
      else a.put(r);
    }
    return r;
  }

  // ------------------------------------------------------------------ C16

  static final class Histories extends Prop {
    Histories() {
      super("C16");
    }

    @Override
    String rule() {
      return "histories of up to 14 steps over families of formatters derived from two programs: derive, illegal "
          + "derive, format into string or builder, failing calls, long outputs (beyond 65536), calls nested in an "
          + "argument's own code up to depth 3; every result is compared with fresh formatters and earlier strings "
          + "are re-read at the end; non-trivial when a cached formatter is called at least twice";
    }

    @Override
    int quickCases() {
      return 120000;
    }

    /** A planned call, possibly with further calls made by its arguments. */
    static final class Call {
      int formatter;
      Program args;
      int cut = -1; // arguments dropped from here
      boolean intoBuilder;
      List<Call> children = new ArrayList<>();
      List<Integer> at = new ArrayList<>();
      int[] mode = new int[4];
      Kinds.UserException bomb;
      int bombAt = -1;
      int longAt = -1;
      String longText;
    }

    interface Family {
      FastPrintf get(int i);
    }

    private static final class Nested {
      final Call call;
      final Family fam;

      Nested(Call call, Family fam) {
        this.call = call;
        this.fam = fam;
      }

      String text() {
        try {
          return "[" + Histories.run(call, fam) + "]";
        } catch (PrintfException e) {
          return "[refused]";
        } catch (Kinds.UserException e) {
          return "[user]";
        }
      }
    }

    private static final class NestObj {
      final Nested n;

      NestObj(Nested n) {
        this.n = n;
      }

      @Override
      public String toString() {
        return n.text();
      }
    }

    private static final class NestCs implements CharSequence {
      final Nested n;
      String t;

      NestCs(Nested n) {
        this.n = n;
      }

      private String t() {
        if (t == null) t = n.text();
        return t;
      }

      @Override
      public int length() {
        return t().length();
      }

      @Override
      public char charAt(int i) {
        if (i == 0) n.text(); // also in the middle of writing
        return t().charAt(i);
      }

      @Override
      public CharSequence subSequence(int a, int b) {
        return t().substring(a, b);
      }

      @Override
      public String toString() {
        return n.text();
      }
    }

    private static final class NestNum extends Number {
      final Nested n;
      final int v;

      NestNum(Nested n, int v) {
        this.n = n;
        this.v = v;
      }

      @Override
      public int intValue() {
        n.text();
        return v;
      }

      @Override
      public long longValue() {
        n.text();
        return v;
      }

      @Override
      public float floatValue() {
        n.text();
        return v;
      }

      @Override
      public double doubleValue() {
        n.text();
        return v;
      }

      @Override
      public String toString() {
        return n.text();
      }
    }

    static String run(Call call, Family fam) {
      Args a = Args.create();
      List<Arg> as = call.args.args();
      int n = call.cut >= 0 ? Math.min(call.cut, as.size()) : as.size();
      for (int i = 0; i < n; i++) {
        int k = call.at.indexOf(i);
        if (i == call.bombAt) a.put(new Kinds.BombObj(call.bomb, null));
        else if (i == call.longAt) a.put(call.longText);
        else if (k >= 0) {
          Nested x = new Nested(call.children.get(k), fam);
          switch (call.mode[k]) {
            case 0:
              a.put(new NestObj(x));
              break;
            case 1:
              a.put(new NestCs(x));
              break;
            default:
              a.put(new NestNum(x, call.mode[k]));
          }
        } else as.get(i).put(a);
      }
      FastPrintf f = fam.get(call.formatter);
      if (call.intoBuilder) return f.format(new StringBuilder("<"), a).toString().substring(1);
      return f.format(a);
    }

    private static Call plan(Src s, List<Integer> programOf, Program[] ps, int depth) {
      int most = depth > 3 ? 1 : 3; // deep plans are chains
      int often = depth > 3 ? 1 : 4;
      Call r = new Call();
      r.formatter = s.below(programOf.size());
      r.args = refill(s, ps[programOf.get(r.formatter)]);
      r.intoBuilder = s.chance(1, 8);
      // positions of value arguments printed as text or number, and of * arguments
      int i = 0;
      for (Program.Piece p : r.args.pieces) {
        if (p.literal != null) continue;
        if (p.starWidth != null) {
          if (depth > 0 && r.at.size() < most && s.chance(1, 6)) nest(s, r, i, 2 + s.below(8), plan(s, programOf, ps, depth - 1));
          i++;
        }
        if (p.starPrec != null) i++;
        char k = p.spec.lowerConv();
        boolean text = k == 's';
        boolean num = "diuxofeg".indexOf(k) >= 0;
        if (text && s.chance(1, 12)) {
          r.bombAt = i;
          r.bomb = new Kinds.UserException("planned");
        } else if (text && s.chance(1, 25)) {
          r.longAt = i;
          r.longText = G.textOf(s, s.chance(1, 40) ? G.huge(s, 1 << 21) : s.pickInt(65535, 65536, 65537, 70000, 40000));
        } else if (depth > 0 && r.at.size() < most && (text || num) && s.chance(1, often)) {
          nest(s, r, i, text ? s.below(2) : 2 + s.below(8), plan(s, programOf, ps, depth - 1));
        }
        i++;
      }
      if (i > 0 && s.chance(1, 12)) r.cut = s.below(i);
      return r;
    }

    private static void nest(Src s, Call r, int at, int mode, Call child) {
      r.mode[r.at.size()] = mode;
      r.at.add(at);
      r.children.add(child);
    }

    private static String show(Call x) {
      StringBuilder sb = new StringBuilder("#" + x.formatter + x.args.args());
      if (x.cut >= 0) sb.append(" cut at ").append(x.cut);
      if (x.bombAt >= 0) sb.append(" throwing at ").append(x.bombAt);
      if (x.longAt >= 0) sb.append(" long text (").append(x.longText.length()).append(") at ").append(x.longAt);
      for (int i = 0; i < x.at.size(); i++) {
        sb.append(" {argument ").append(x.at.get(i)).append(x.mode[i] == 0 ? " object" : x.mode[i] == 1 ? " characters" : " number").append(" calls ").append(show(x.children.get(i))).append('}');
      }
      return sb.toString();
    }

    /** Formatters derived from one of very many pieces. */
    private static void longFormat(Case c, Src s) {
      Program p = Program.big(s, G.CONVS, 1, 6);
      p.key(c);
      int cap = s.pickInt(1, 64, 65536, 65537, 1 << 20);
      boolean first = s.bool();
      c.describe(() -> p.pieces.size() + " pieces, " + (first ? "cache, capacity " : "capacity, cache ") + cap + ": " + p.show());
      c.label("long format");
      c.nontrivial();
      FastPrintf g = FastPrintf.compile(p.format());
      FastPrintf one = first ? g.enableThreadLocalCache() : g.setStringBuilderInitialCapacity(cap);
      FastPrintf two = first ? one.setStringBuilderInitialCapacity(cap) : one.enableThreadLocalCache();
      FastPrintf[] fs = {one, two, two, one, g};
      String exp = p.text();
      for (int i = 0; i < fs.length; i++) {
        FastPrintf f = fs[i];
        c.same(Out.text(exp), Out.of(() -> f.format(Arg.args(p.args()))), "call " + i + " of a format of " + p.pieces.size() + " pieces, " + (first ? "cache, capacity " : "capacity, cache ") + cap);
      }
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      if (s.chance(1, 400)) {
        longFormat(c, s);
        return;
      }
      Program[] ps = {Program.good(s, 4, "sdSsxfctg", 1, 4), Program.good(s, 3, "ssd", 1, 5)};
      String[] fmts = {ps[0].format(), ps[1].format()};
      List<FastPrintf> fs = new ArrayList<>();
      List<Integer> programOf = new ArrayList<>();
      List<Boolean> cached = new ArrayList<>();
      List<Integer> cap = new ArrayList<>();
      for (int i = 0; i < 2; i++) {
        fs.add(FastPrintf.compile(fmts[i]));
        programOf.add(i);
        cached.add(false);
        cap.add(-1);
      }
      StringBuilder log = new StringBuilder("formats " + Show.of(fmts[0]) + ", " + Show.of(fmts[1]));
      c.describe(log::toString);
      List<String> results = new ArrayList<>();
      List<char[]> copies = new ArrayList<>();
      int cachedCalls = 0;
      int steps = s.range(1, 14);
      boolean early = s.bool(); // start with a cached formatter
      for (int k = 0; k < steps; k++) {
        int op = early && k == 0 ? 1 : s.weighted(12, 4, 3, 1);
        int i = s.below(fs.size());
        if (op == 1) {
          FastPrintf g = fs.get(i).enableThreadLocalCache();
          log.append("; #").append(fs.size()).append(" = cache(#").append(i).append(')');
          if (cached.get(i)) c.ok(g == fs.get(i), "enabling the cache again gave another formatter: " + log);
          fs.add(g);
          programOf.add(programOf.get(i));
          cached.add(true);
          cap.add(cap.get(i));
        } else if (op == 2) {
          int n = s.pickInt(1, 2, 16, 64, 65535, 65536, 65537, 100000);
          if (cap.get(i) > 0 && s.bool()) n = cap.get(i);
          FastPrintf g = fs.get(i).setStringBuilderInitialCapacity(n);
          log.append("; #").append(fs.size()).append(" = capacity(#").append(i).append(", ").append(n).append(')');
          if (cap.get(i) == n) c.ok(g == fs.get(i), "setting the same capacity again gave another formatter: " + log);
          fs.add(g);
          programOf.add(programOf.get(i));
          cached.add(cached.get(i));
          cap.add(n);
        } else if (op == 3) {
          int n = -s.pickInt(0, 1, 100, Integer.MAX_VALUE);
          log.append("; capacity(#").append(i).append(", ").append(n).append(')');
          Out o = Out.of(() -> fs.get(i).setStringBuilderInitialCapacity(n));
          c.ok(o.error instanceof IllegalArgumentException, "capacity " + n + " gave " + o + ": " + log);
        } else {
          Call call = plan(s, programOf, ps, s.chance(1, 40) ? s.range(4, 20) : 3);
          log.append("; ").append(show(call));
          if (cached.get(call.formatter)) cachedCalls++;
          Out exp = Out.of(() -> run(call, x -> FastPrintf.compile(fmts[programOf.get(x)])));
          Out act = Out.of(() -> run(call, fs::get));
          c.same(exp, act, "call " + show(call) + " in history " + log);
          if (call.bomb != null && exp.error instanceof Kinds.UserException && call.children.isEmpty()) {
            c.ok(act.error == call.bomb, "exception replaced: " + log);
          }
          if (act.ok()) {
            String r = (String) act.value;
            results.add(r);
            copies.add(r.toCharArray());
          }
          if (!call.children.isEmpty()) c.label("nested");
          if (!exp.ok()) c.label("failing call");
          if (call.longAt >= 0) c.label("long");
        }
      }
      if (s.chance(1, 3)) {
        int i = s.below(fs.size());
        within(c, s, fs.get(i), refill(s, ps[programOf.get(i)]), "#" + i + " in history " + log);
      }
      if (s.chance(1, 3)) { // arguments easily mistaken for the ones before
        int i = s.below(fs.size());
        Program first = refill(s, ps[programOf.get(i)]);
        for (Program.Piece x : first.pieces) {
          if (x.literal == null && x.spec.lowerConv() == 's' && s.bool()) {
            Arg v = G.any(s);
            if (Check.expect(x.spec, v).reject == null) x.value = v;
          }
        }
        Program second = nearly(s, first);
        log.append("; #").append(i).append(" with ").append(first.args()).append(", ").append(second.args()).append(", the first again");
        for (int k = 0; k < 3; k++) {
          Program q = k == 1 ? second : first;
          c.same(Out.text(q.text()), Out.of(() -> fs.get(i).format(Arg.args(q.args()))), "call " + k + " of the last three of history " + log);
        }
      }
      if (s.chance(1, 150)) { // very many calls
        int i = s.below(fs.size());
        int n = s.chance(1, 40) ? G.huge(s, 1 << 18) : s.chance(1, 3) ? (int) Math.floorMod(G.dictLong(s), 20000L) + 2 : s.pickInt(40, 300, 1100, 5000);
        Program[] q = {refill(s, ps[programOf.get(i)]), refill(s, ps[programOf.get(i)]), refill(s, ps[programOf.get(i)])};
        String[] exp = {q[0].text(), q[1].text(), q[2].text()};
        log.append("; #").append(i).append(' ').append(n).append(" times with ").append(q[0].args()).append(", ").append(q[1].args()).append(", ").append(q[2].args());
        c.label("very many calls");
        for (int k = 0; k < n; k++) {
          int j = k % 3;
          Out act = Out.of(() -> fs.get(i).format(Arg.args(q[j].args())));
          if (!act.ok() || !exp[j].equals(act.value)) c.same(Out.text(exp[j]), act, "call " + k + " of history " + log);
        }
      }
      for (int k = 0; k < results.size(); k++) {
        c.ok(Arrays.equals(copies.get(k), results.get(k).toCharArray()), "an earlier result changed: " + log);
      }
      c.key(log.toString());
      c.label("cached calls " + Math.min(cachedCalls, 5));
      if (cachedCalls >= 2) c.nontrivial();
    }
  }

  // ------------------------------------------------------------------ C18

  static final class Arguments extends Prop {
    Arguments() {
      super("C18");
    }

    @Override
    String rule() {
      return "a generated list of up to 8 (sometimes thousands of) values of any type is built through varargs, iterables, generic, typed "
          + "and mixed puts (nulls through every typed put), pre-sized or not, and formatted also while one of its values is being formatted; reported values, snapshots, immutability, repeated formatting and "
          + "equality of the formatted text with the model are checked; non-trivial when there are at least two values";
    }

    @Override
    int quickCases() {
      return 600000;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      int n = s.range(0, 8);
      Program p = new Program();
      for (int i = 0; i < n; i++) {
        Program.Piece x = Program.conv(s, s.chance(1, 5) ? "p" : "diuoxXfFeEgGaAcsStT");
        if (x.spec.conv == 'p') {
          x.value = G.any(s);
          if (x.value.primitive) x.value = Arg.of(x.value.value);
        } else if (s.chance(1, 3)) {
          Arg v = G.any(s);
          if (Check.expect(x.spec, v).reject == null) x.value = v;
        }
        if (x.expect().reject != null) {
          x.spec = Grammar.spec("%s");
        }
        p.add(x);
        p.add(Program.literal("|"));
      }
      if (n > 0 && s.chance(1, 400)) { // a long list over the same few pieces
        List<Program.Piece> few = new ArrayList<>(p.pieces);
        long r = s.bits();
        int size = Program.bigSize(s);
        int room = size > 2000 ? 2000000 : 40000;
        for (int i = size; i > 0 && room > 0; i--) {
          Program.Piece x = few.get(2 * (int) Math.floorMod(Case.mix(r + i), (long) n));
          room -= x.expect().text.length();
          p.add(x);
        }
        c.label("long list");
      }
      List<Arg> as = p.args();
      String f = p.format();
      String exp = p.text();
      p.key(c);
      c.describe(p::show);
      if (n >= 2) c.nontrivial();
      List<Object> raw = new ArrayList<>();
      for (Arg a : as) raw.add(a.value);
      Args[] built = new Args[10];
      Iterator<Object> walk = raw.iterator();
      built[7] = Args.of((Iterable<Object>) () -> walk); // can be walked once
      int claimed = Math.max(0, raw.size() + s.range(0, 4) - 2);
      built[8] = Args.of((Iterable<?>) new java.util.AbstractCollection<Object>() { // changed since its size was taken
        @Override
        public Iterator<Object> iterator() {
          return raw.iterator();
        }

        @Override
        public int size() {
          return claimed;
        }
      });
      built[0] = Args.of(raw.toArray());
      built[1] = Args.of((Iterable<?>) raw);
      built[2] = Args.of((Iterable<Object>) () -> raw.iterator());
      built[3] = Args.create();
      built[4] = Args.createWithExpectedSize(s.range(0, 12));
      built[5] = Args.create();
      built[6] = Args.of((Iterable<?>) new LinkedList<>(raw));
      for (Arg a : as) {
        Args r = built[3].put(a.value);
        c.ok(r == built[3] || r.values().equals(built[3].values()), "put returned an unrelated list");
        built[4] = next(a.value == null ? Arg.putNull(built[4], s.below(15)) : a.putTyped(built[4]), c);
        built[5] = next(s.bool() ? a.put(built[5]) : a.putTyped(built[5]), c);
      }
      built[9] = Args.of((Iterable<?>) built[s.below(7)]); // an argument list is itself an iterable
      FastPrintf fp = FastPrintf.compile(f);
      for (int i = 0; i < built.length; i++) {
        Args a = built[i];
        String what = "list " + i + " of " + p.show();
        List<Object> vs = a.values();
        sameValues(c, as, vs, what);
        for (int k = 0; k < 2; k++) {
          c.same(Out.text(exp), Out.of(() -> fp.format(a)), "formatting " + what + ", time " + k);
        }
        sameValues(c, as, a.values(), what + " after formatting");
        sameValues(c, as, vs, "earlier snapshot of " + what);
        int seen = 0;
        for (Iterator<?> it = a.iterator(); it.hasNext(); it.next()) seen++;
        c.same(as.size(), seen, "elements iterated in " + what);
      }
      if (s.chance(1, 8)) own(c, s, p);
      // unmodifiable snapshots
      Args a = built[s.below(built.length)];
      List<Object> vs = a.values();
      c.ok(!Out.of(() -> vs.add("x")).ok(), "the reported list accepts add");
      if (n > 0) {
        int k = s.below(n);
        c.ok(!Out.of(() -> vs.set(k, "x")).ok(), "the reported list accepts set");
        c.ok(!Out.of(() -> vs.remove(k)).ok(), "the reported list accepts remove");
        c.ok(!Out.of(() -> {
          vs.clear();
          return null;
        }).ok(), "the reported list accepts clear");
        c.ok(!Out.of(() -> {
          Iterator<Object> it = vs.iterator();
          it.next();
          it.remove();
          return null;
        }).ok(), "the reported list's iterator accepts remove");
      }
      a.put("later");
      sameValues(c, as, vs, "snapshot taken before a later put to " + p.show());
      c.same(Out.text(exp), Out.of(() -> fp.format(a)), "formatting with a surplus argument " + p.show());
    }

    /** The list to go on with: whatever a put returned, which callers chain further puts on. */
    private static Args next(Args returned, Case c) {
      c.ok(returned != null, "a put returned no list");
      return returned;
    }

    /** An object in the list formats the same list while it is being formatted. */
    private static void own(Case c, Src s, Program p) {
      int n = p.pieces.size();
      if (n > 200) return;
      int at = s.below(n + 1);
      Program head = new Program();
      for (int i = 0; i < at; i++) head.pieces.add(p.pieces.get(i));
      Program tail = new Program();
      for (int i = at; i < n; i++) tail.pieces.add(p.pieces.get(i));
      if (tail.format().startsWith("{")) return;
      Args[] list = new Args[1];
      FastPrintf inner = FastPrintf.compile(head.format());
      boolean number = s.bool();
      String text = head.text();
      Out[] got = new Out[1];
      Object o = number ? new Number() {
        @Override
        public int intValue() {
          got[0] = Out.of(() -> inner.format(list[0]));
          return 7;
        }

        @Override
        public long longValue() {
          return intValue();
        }

        @Override
        public float floatValue() {
          return intValue();
        }

        @Override
        public double doubleValue() {
          return intValue();
        }
      } : new Object() {
        @Override
        public String toString() {
          got[0] = Out.of(() -> inner.format(list[0]));
          return "7";
        }
      };
      List<Arg> all = head.args();
      all.add(Arg.of(o));
      all.addAll(tail.args());
      list[0] = build(s, all);
      c.label("list used while in use");
      String f = head.format() + (number ? "%d" : "%s") + tail.format();
      String what = Show.of(f) + " with " + all.size() + " arguments, of which number " + head.args().size() + " formats " + Show.of(head.format()) + " with the same list";
      c.same(Out.text(text + "7" + tail.text()), Out.of(() -> FastPrintf.compile(f).format(list[0])), what);
      c.same(Out.text(text), got[0], what + ": inner result");
    }

    private static void sameValues(Case c, List<Arg> as, List<Object> vs, String what) {
      c.same(as.size(), vs.size(), "number of values of " + what);
      for (int i = 0; i < as.size(); i++) {
        Object e = as.get(i).value;
        Object v = vs.get(i);
        c.checks++;
        if (as.get(i).primitive) {
          if (v == null || v.getClass() != e.getClass() || !v.equals(e)) c.fail("value " + i + " of " + what + " is " + Show.of(v));
        } else {
          if (v != e) c.fail("value " + i + " of " + what + " is another object: " + Show.of(v));
        }
      }
    }
  }

  // ------------------------------------------------------------------ C19

  static final class Failures extends Prop {
    Failures() {
      super("C19");
    }

    @Override
    String rule() {
      return "a program whose piece at a random position gets an unsuitable, missing or throwing argument is "
          + "formatted to a string, builder, buffer or user-defined destination; the kind or identity of the "
          + "exception, the text written before it, and later use of the same formatter and arguments are checked; "
          + "non-trivial when a piece precedes the failing one";
    }

    @Override
    int quickCases() {
      return 700000;
    }

    static final class BombTime implements TemporalAccessor {
      final RuntimeException ex;

      BombTime(RuntimeException ex) {
        this.ex = ex;
      }

      @Override
      public boolean isSupported(TemporalField f) {
        throw ex;
      }

      @Override
      public long getLong(TemporalField f) {
        throw ex;
      }

      @Override
      public String toString() {
        return "BombTime";
      }
    }

    /** Has a length and a beginning, then throws. */
    static final class LateCs implements CharSequence {
      final String s;
      final int ok;
      final RuntimeException ex;

      LateCs(String s, int ok, RuntimeException ex) {
        this.s = s;
        this.ok = ok;
        this.ex = ex;
      }

      @Override
      public int length() {
        return s.length();
      }

      @Override
      public char charAt(int i) {
        if (i >= ok) throw ex;
        return s.charAt(i);
      }

      @Override
      public CharSequence subSequence(int a, int b) {
        if (b > ok) throw ex;
        return s.substring(a, b);
      }

      @Override
      public String toString() {
        throw ex;
      }
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      Program p = s.chance(1, 800) ? Program.big(s, G.CONVS, 1, 6) : Program.good(s, 5, G.CONVS, 1, 6);
      int at = s.below(p.pieces.size() + 1);
      Program.Piece bad;
      RuntimeException ex = s.bool() ? new Kinds.UserException("own") : Kinds.runtime(s);
      Error er = s.chance(1, 4) ? s.bool() ? new Kinds.UserError("own") : Kinds.error(s) : null;
      Throwable own = er != null ? er : ex;
      boolean user = false;
      boolean late = false;
      int drop = -1;
      String kind;
      switch (s.below(6)) {
        case 0:
        case 1: {
          bad = Program.conv(s, "diuoxXfFeEgGaActTp");
          bad.value = G.any(s);
          Program.stars(s, bad, 1, 8);
          if (bad.expect().reject == null) bad.value = Arg.of(s.bool() ? null : new Kinds.Plain());
          if (bad.expect().reject == null) bad.value = new Arg(5, true);
          if (bad.expect().reject == null) {
            bad = Program.conv(Grammar.spec("%d"), Arg.of(null));
          }
          kind = "unsuitable for %" + bad.spec.conv;
          break;
        }
        case 2: {
          user = true;
          int k = s.below(5);
          bad = Program.conv(s, k == 0 ? "sSdfxc" : k == 1 ? "sS" : k == 2 ? "duoxfegas" : k == 3 ? "t" : "sdf");
          bad.spec.datePattern = k == 3 ? "HH:mm" : null;
          // the ways for a date to say that a field is not supported and for text not to be a number
          if (k == 3 && ex instanceof java.time.DateTimeException || k == 0 && ex instanceof NumberFormatException) ex = new Kinds.UserException("own");
          if (k == 3 || er == null) own = ex;
          bad.value = Arg.of(k == 0 ? new Kinds.Bomb(ex, er) : k == 1 ? new Kinds.BombObj(ex, er) : k == 2 ? new Kinds.BombNum(ex, er) : k == 3 ? new BombTime(ex) : "7");
          if (k == 4) {
            if (s.bool()) {
              bad.spec.width = -1;
              bad.starWidth = Arg.of(new Kinds.BombNum(ex, er));
            } else {
              bad.spec.prec = -1;
              bad.starPrec = Arg.of(new Kinds.BombNum(ex, er));
            }
          }
          kind = "throwing " + k;
          break;
        }
        case 3: {
          user = true;
          late = true;
          er = null;
          own = ex;
          String t = G.textOf(s, s.range(1, 40));
          bad = Program.conv(Grammar.spec("%s"), Arg.of(new LateCs(t, s.below(t.length()), ex)));
          if (s.bool()) bad.spec.width = s.range(1, 50);
          if (s.bool()) bad.spec.flags = Spec.MINUS;
          if (s.bool()) bad.spec.conv = 'S';
          kind = "throwing late";
          break;
        }
        case 4: { // bad * argument
          bad = Program.conv(s, "sdfxc");
          Arg v = Arg.of(s.pick(null, "abc", "", new Kinds.Plain(), 70000, Integer.MIN_VALUE, "99999999999", new int[0]));
          if (s.bool()) {
            bad.spec.width = -1;
            bad.starWidth = v;
          } else {
            bad.spec.prec = -1;
            bad.starPrec = v;
          }
          if (bad.expect().reject == null) bad = Program.conv(Grammar.spec("%d"), Arg.of(null));
          kind = "unsuitable as *";
          break;
        }
        default: { // missing
          bad = Program.goodPiece(s, G.CONVS, 1, 3);
          if (bad.literal != null) bad = Program.conv(Grammar.spec("%d"), Arg.of(1));
          List<Arg> l = new ArrayList<>();
          bad.args(l);
          drop = s.below(l.size());
          kind = "missing";
        }
      }
      Program q = new Program();
      for (int i = 0; i < at; i++) q.add(p.pieces.get(i));
      List<Arg> args = q.args();
      int before = q.pieces.size();
      String prefix = q.text(before);
      q.add(bad);
      List<Arg> own2 = new ArrayList<>();
      bad.args(own2);
      if (drop >= 0) args.addAll(own2.subList(0, drop));
      else args.addAll(own2);
      for (int i = at; i < p.pieces.size(); i++) {
        q.add(p.pieces.get(i));
        if (drop < 0) p.pieces.get(i).args(args);
      }
      String f = q.format();
      c.label(kind);
      c.key(f);
      c.key(at);
      c.key(kind);
      String shown = show(args);
      c.key(shown);
      c.describe(() -> Show.of(f) + " with " + shown + ", failing at piece " + before + " (" + kind + ")");
      if (before > 0) c.nontrivial();
      FastPrintf fp = FastPrintf.compile(f);
      if (s.bool()) fp = fp.enableThreadLocalCache();
      FastPrintf g = fp;
      Args a = build(s, args);
      List<Object> reported = a.values();
      String prior = s.bool() ? "" : "prior";
      int further = s.below(6);
      for (int i = 0; i < 5; i++) {
        Appendable d = i == 0 ? null : i == 1 ? new StringBuilder(prior) : i == 2 ? new StringBuffer(prior) : i == 3 ? new Sinks.Plain(null) : further(further, prefix.length() + 400);
        if (i == 3) ((Sinks.Plain) d).text().append(prior);
        if (i == 4) Out.of(() -> d.append(prior));
        Out o = Out.of(() -> d == null ? g.format(a) : g.format(d, a));
        String where = i == 0 ? "string" : i == 3 ? "user-defined appendable" : d.getClass().getSimpleName();
        String what = Show.of(f) + " with " + shown + " into a " + where;
        if (user) {
          c.ok(o.error == own, what + ": the argument's own exception was expected, got " + o);
          c.ok(own.getSuppressed().length == 0, what + ": the argument's own exception was added to: " + Arrays.toString(own.getSuppressed()));
        }
        else if (drop >= 0) c.ok(o.rejected(), what + ": " + o);
        else c.ok(Check.refused(o, bad.expect().reject), what + ": expected " + bad.expect() + ", got " + o);
        if (d == null) continue;
        String got = i == 3 ? ((Sinks.Plain) d).text().toString() : i == 4 ? written(d) : d.toString();
        if (late) {
          c.ok(got.startsWith(prior + prefix) && lateText(bad).startsWith(got.substring((prior + prefix).length())),
              what + ": written " + Show.of(got) + ", expected " + Show.of(prior + prefix) + " and possibly the beginning of the piece");
        } else c.same(prior + prefix, got, "text written before the failure of " + what);
      }
      List<Object> again = a.values();
      c.same(reported.size(), again.size(), "number of arguments after the failures");
      for (int i = 0; i < reported.size(); i++) {
        Object x = reported.get(i);
        boolean prim = args.get(i).primitive;
        c.ok(prim ? x.equals(again.get(i)) : x == again.get(i), "argument " + i + " changed");
      }
      Program good = refill(s, q);
      c.same(Out.text(good.text()), Out.of(() -> g.format(Arg.args(good.args()))), "after the failure, " + good.show());
    }

    private static Appendable further(int k, int room) {
      switch (k) {
        case 0:
          return new StringWriter();
        case 1:
          return new CharArrayWriter();
        case 2:
          return CharBuffer.allocate(room);
        case 3:
          return new Kept(new StringWriter());
        case 4:
          return new Sinks.W(null);
        default:
          return new Held(new CharArrayWriter());
      }
    }

    /** What a destination of {@link #further} has been given. */
    private static String written(Appendable d) {
      if (d instanceof CharBuffer) {
        CharBuffer b = ((CharBuffer) d).duplicate();
        b.flip();
        return b.toString();
      }
      if (d instanceof Sinks.W) return ((Sinks.W) d).text().toString();
      if (d instanceof Kept) return ((Kept) d).to();
      if (d instanceof Held) return ((Held) d).to();
      return d.toString();
    }

    private static final class Kept extends PrintWriter {
      Kept(Writer w) {
        super(w);
      }

      String to() {
        flush();
        return out.toString();
      }
    }

    private static final class Held extends BufferedWriter {
      private final Writer w;

      Held(Writer w) {
        super(w, 7);
        this.w = w;
      }

      String to() {
        Out.of(() -> {
          flush();
          return null;
        });
        return w.toString();
      }
    }

    private static String lateText(Program.Piece p) {
      Program.Piece x = Program.conv(p.spec, Arg.of(((LateCs) p.value.value).s));
      return x.expect().text;
    }

    private static String show(List<Arg> as) {
      StringBuilder sb = new StringBuilder("[");
      for (Arg a : as) {
        if (sb.length() > 1) sb.append(", ");
        Object v = a.value;
        sb.append(v instanceof Kinds.Bomb || v instanceof Kinds.BombObj || v instanceof Kinds.BombNum || v instanceof LateCs ? v.getClass().getSimpleName() : a.show());
      }
      return sb.append("]").toString();
    }
  }

  // ------------------------------------------------------------------ C20

  static final class Faults extends Prop {
    Faults() {
      super("C20");
    }

    @Override
    String rule() {
      return "for a generated program the destination (bare appendable or writer) is made to fail at its first, "
          + "second, ... write until the call completes, by an I/O error, a runtime exception or an error, before "
          + "or after accepting half of that write; exception identity, accepted prefix, silence after the error and "
          + "later use are checked; non-trivial when at least three writes were made to fail";
    }

    @Override
    int quickCases() {
      return 120000;
    }

    @Override
    String[] assumptions() {
      return new String[] {"at most 400 failing writes per case; longer outputs are sampled evenly"};
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      Program p = Program.good(s, 4, G.CONVS, 1, 6);
      boolean writer = s.bool();
      int kind = s.below(5);
      boolean half = s.bool();
      p.key(c);
      c.key(kind * 4 + (writer ? 2 : 0) + (half ? 1 : 0));
      Throwable error = kind == 0 ? new IOException("disk full") : kind < 3 ? Kinds.io(s) : kind == 3 ? new Kinds.UserException("sink") : s.bool() ? new Kinds.UserError("sink") : Kinds.error(s);
      if (kind == 3 && s.bool()) error = s.bool() ? new UncheckedIOException(new IOException("inner")) : Kinds.runtime(s);
      Throwable err = error;
      c.describe(() -> p.show() + " into a " + (writer ? "writer" : "appendable") + " failing with " + err + (half ? " after half the write" : ""));
      String full = p.text();
      List<Arg> as = p.args();
      FastPrintf g = FastPrintf.compile(p.format());
      Args a = build(s, as);
      int failures = 0;
      int total = -1;
      int step = 1;
      for (int k = 0; ; k += step) {
        int index = k;
        int[] count = {0};
        Sinks.Gate gate = new Sinks.Gate() {
          @Override
          public int admit(int n) {
            return count[0]++ == index ? (half ? n / 2 : 0) : -1;
          }

          @Override
          public Throwable error() {
            return err;
          }
        };
        Sinks.Recording d = writer ? new Sinks.W(gate) : new Sinks.Plain(gate);
        Out o = Out.of(() -> g.format(d, a));
        String what = p.show() + " with write " + k + " failing with " + err.getClass().getSimpleName();
        if (!d.failed()) {
          c.same(Out.text(d), o, "result without a failing write of " + p.show());
          c.same(full, d.text().toString(), "output without a failing write of " + p.show());
          total = d.writes();
          break;
        }
        failures++;
        if (err instanceof IOException) {
          c.ok(o.error instanceof RuntimeException && o.error.getCause() == err, what + ": " + o);
        } else {
          c.ok(o.error == err, what + ": " + o);
        }
        c.ok(err.getSuppressed().length == 0, what + ": the error was added to: " + Arrays.toString(err.getSuppressed()));
        String got = d.text().toString();
        c.ok(full.startsWith(got), what + ": accepted " + Show.of(got) + " of " + Show.of(full));
        c.ok(!d.wroteAfterFailure(), what + ": written to again after the error");
        if (k == 200) step = Math.max(1, full.length() / 200);
      }
      c.same(Out.text(full), Out.of(() -> g.format(a)), "healthy use afterwards of " + p.show());
      c.label("writes " + (total > 20 ? ">20" : total > 5 ? "6..20" : String.valueOf(total)));
      c.label(err.getClass().getSimpleName());
      if (failures >= 3) c.nontrivial();
    }
  }
}
