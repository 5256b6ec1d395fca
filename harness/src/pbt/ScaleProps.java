package pbt;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.seq.Seq;
import java.io.StringWriter;
import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.nio.CharBuffer;
import java.time.Instant;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.function.IntConsumer;

/** C33: time follows the size of what is done. */
final class ScaleProps extends Prop {
  private static final long SECOND = 1_000_000_000L;
  private static final long FLOOR = 5 * SECOND / 2;
  private static final int RATIO = 40;
  private static final long CEILING = 20 * SECOND;
  private static final ThreadMXBean MX = ManagementFactory.getThreadMXBean();

  ScaleProps() {
    super("C33");
  }

  @Override
  String rule() {
    return "a generated scenario (long literals, many conversions, long texts and arrays, many calls of one formatter to strings or a growing destination, "
        + "many formatters, long argument lists, wide fields, long date patterns, long rejected formats, failing calls, ropes of many operations) is run at a size that takes "
        + "some hundredths of a second and at a sixteenth of it; the calling thread's CPU time must not exceed 2.5 s while being more than " + RATIO
        + " times that of the small size, and never 20 s (least of three measurements); non-trivial when the run at full size took more than 2 ms";
  }

  @Override
  int quickCases() {
    return 1600;
  }

  @Override
  String[] assumptions() {
    return new String[] {"time means CPU time of the calling thread, so that load and garbage collection count little"};
  }

  /** What is done at a given size. */
  private static final class Scenario {
    final String name;
    final int size;
    final IntConsumer run;

    Scenario(String name, int size, IntConsumer run) {
      this.name = name;
      this.size = size;
      this.run = run;
    }
  }

  private static String rep(String t, int n) {
    StringBuilder sb = new StringBuilder(n + t.length());
    while (sb.length() < n) sb.append(t);
    return sb.toString();
  }

  private static void write(FastPrintf g, Args a, int dest) {
    switch (dest) {
      case 0:
        g.format(a);
        return;
      case 1:
        g.format(new StringBuilder(), a);
        return;
      case 2:
        g.format(new StringBuffer(), a);
        return;
      case 3:
        g.format(new StringWriter(), a);
        return;
      default:
        g.format(new Sinks.Plain(null), a);
    }
  }

  private static FastPrintf options(FastPrintf g, int opts) {
    if ((opts & 1) != 0) g = g.enableThreadLocalCache();
    if ((opts & 2) != 0) g = g.setStringBuilderInitialCapacity(20);
    return g;
  }

  /** One to four pieces with short output, the format not starting with a brace. */
  private static Program few(Src s, String convs) {
    Program p = new Program();
    p.pieces.add(Program.literal(" "));
    for (int k = s.range(1, 4); k > 0; k--) {
      Program.Piece x = Program.goodPiece(s, convs, 1, 6);
      if (x.expect().text.length() > 40 || x.format().length() > 60 || x.literal == null && x.value.show().length() > 120) x = Program.literal("ab");
      p.add(x);
    }
    return p;
  }

  private static Object text(int kind, String t) {
    switch (kind) {
      case 0:
        return t;
      case 1:
        return new StringBuilder(t);
      case 2:
        return new StringBuffer(t);
      case 3:
        return new Kinds.Cs(t);
      case 4:
        return CharBuffer.wrap(t);
      case 5:
        return t.toCharArray();
      case 6:
        return Seq.wrap(t).append(Seq.wrap(t, 0, 1));
      default:
        return new Kinds.Obj(t);
    }
  }

  static Object array(int kind, int n) {
    switch (kind) {
      case 0:
        return new int[n];
      case 1:
        return new byte[n];
      case 2: {
        Object[] x = new Object[n];
        for (int i = 0; i < n; i++) x[i] = i % 3 == 0 ? null : "e";
        return x;
      }
      case 3: {
        List<Object> x = new ArrayList<>();
        for (int i = 0; i < n; i++) x.add(i);
        return x;
      }
      case 4: {
        String[] x = new String[n];
        Arrays.fill(x, "ab");
        return x;
      }
      case 5:
        return new double[n];
      case 6: {
        Object[] x = new Object[n / 100 + 1];
        for (int i = 0; i < x.length; i++) x[i] = Arrays.asList(rep("x", 50).split(""));
        return x;
      }
      default:
        return new boolean[n];
    }
  }

  private static Args list(int way, Object[] vs) {
    switch (way) {
      case 0:
        return Args.of(vs);
      case 1:
        return Args.of(Arrays.asList(vs));
      case 2:
        return Args.of((Iterable<Object>) () -> Arrays.asList(vs).iterator());
      case 3: {
        Args a = Args.create();
        for (Object v : vs) a = a.put(v);
        return a;
      }
      default: {
        Args a = Args.createWithExpectedSize(1);
        for (Object v : vs) Arg.of(v).putTyped(a);
        return a;
      }
    }
  }

  private static Scenario scenario(Src s) {
    int dest = s.below(5);
    int opts = s.below(4);
    switch (s.below(13)) {
      case 0: {
        String t = s.chance(1, 3) ? "%%" + G.textOf(s, s.range(0, 9)).replace("%", "%%") : "l" + G.textOf(s, s.range(0, 30)).replace("%", "%%");
        return new Scenario("literal of " + Show.of(t) + " to " + dest, 1 << 20, n -> write(options(FastPrintf.compile(rep(t, n)), opts), Args.create(), dest));
      }
      case 1: {
        Program p = few(s, G.CONVS);
        String f = p.format();
        List<Arg> as = p.args();
        int way = s.below(5);
        return new Scenario("conversions " + p.show() + " by " + way + " to " + dest, 1 << 17, n -> {
          int k = n / p.pieces.size() + 1;
          List<Object> vs = new ArrayList<>();
          Args mixed = Args.create();
          for (int i = 0; i < k; i++) {
            for (Arg a : as) {
              vs.add(a.value);
              if (way >= 3) a.put(mixed);
            }
          }
          boolean pointer = f.contains("p");
          write(options(FastPrintf.compile(rep(f, k * f.length())), opts), way >= 3 || pointer ? mixed(as, k) : list(way, vs.toArray()), dest);
        });
      }
      case 2: {
        int kind = s.below(8);
        Spec sp = new Spec();
        sp.conv = s.pickChar("sS");
        sp.width = s.chance(1, 4) ? s.below(65536) : -1;
        String unit = "u" + G.textOf(s, s.range(0, 20));
        boolean cut = s.chance(1, 3);
        int divisor = s.range(1, 8);
        return new Scenario("text " + kind + " of " + Show.of(unit) + " with %" + sp.conv + (cut ? " cut" : "") + " to " + dest, 1 << 20, n -> {
          String f = cut ? "%.*" + sp.conv : "%" + (sp.width > 0 ? "" + sp.width : "") + sp.conv;
          Object t = text(kind, rep(unit, n));
          write(options(FastPrintf.compile(f), opts), cut ? Args.of(Math.min(65536, n / divisor), t) : Args.of(new Object[] {t}), dest);
        });
      }
      case 3: {
        int kind = s.below(8);
        char conv = s.pickChar("sS");
        return new Scenario("array " + kind + " with %" + conv + " to " + dest, 1 << 18, n -> write(options(FastPrintf.compile("%" + conv), opts), Args.of(new Object[] {array(kind, n)}), dest));
      }
      case 4: {
        Program p = few(s, G.CONVS);
        FastPrintf g = FastPrintf.compile(p.format());
        List<Arg> as = p.args();
        boolean same = s.bool();
        boolean fail = s.chance(1, 3) && !as.isEmpty();
        return new Scenario("calls of " + p.show() + (same ? " with one list" : "") + (fail ? " failing at times" : "") + " options " + opts + " to " + dest, 1 << 17, n -> {
          FastPrintf h = options(g, opts);
          Args one = Arg.args(as);
          Args none = Args.create();
          for (int i = 0; i < n; i++) {
            write(h, same ? one : Arg.args(as), dest);
            if (fail && i % 4 == 3) {
              Out o = Out.of(() -> h.format(none));
              if (o.ok()) throw new Violation("a call without arguments succeeded");
            }
          }
        });
      }
      case 5: {
        Program p = few(s, G.CONVS);
        FastPrintf g = options(FastPrintf.compile(p.format()), opts);
        List<Arg> as = p.args();
        int kind = s.below(3);
        int prior = s.pickInt(0, 1000, 1000000);
        return new Scenario("calls of " + p.show() + " to one growing destination " + kind + " of " + prior, 1 << 17, n -> {
          Appendable d = kind == 0 ? new StringBuilder(rep("p", prior)) : kind == 1 ? new StringBuffer(rep("p", prior)) : new StringWriter().append(rep("p", prior));
          Args one = Arg.args(as);
          for (int i = 0; i < n; i++) g.format(d, one);
        });
      }
      case 6: {
        Program p = few(s, G.CONVS);
        String f = p.format();
        List<Arg> as = p.args();
        boolean distinct = s.chance(3, 4);
        return new Scenario("formatters " + p.show() + (distinct ? " each different" : "") + " options " + opts, (opts & 1) != 0 ? 1 << 14 : 1 << 16, n -> {
          List<FastPrintf> live = new ArrayList<>();
          Args one = Arg.args(as);
          for (int i = 0; i < n; i++) {
            FastPrintf g = options(FastPrintf.compile(distinct ? i + f : f), opts);
            g.format(one);
            live.add(g);
          }
          for (FastPrintf g : live) g.format(one);
        });
      }
      case 7: {
        int way = s.below(5);
        Arg v = G.natural(s, s.pickChar("dsfc"));
        if (v.show().length() > 200) v = Arg.of("v");
        Object o = v.value;
        boolean all = s.bool();
        return new Scenario("list of " + v.show() + " built by " + way, 1 << 19, n -> {
          Object[] vs = new Object[n];
          Arrays.fill(vs, o);
          Args a = list(way, vs);
          if (all) a.values().hashCode();
          a.values().size();
          FastPrintf.compile("%s").format(a);
        });
      }
      case 8: {
        char conv = s.pickChar("diuoxXfeEgGaAsSct");
        Spec sp = G.spec(s, conv);
        boolean width = s.bool() || "aAsSct".indexOf(conv) >= 0;
        int star = s.below(3);
        sp.datePattern = null;
        Arg v = G.natural(s, conv);
        if (v.show().length() > 200) v = Arg.of(conv == 't' ? (Object) Instant.EPOCH : conv == 'c' || conv == 's' || conv == 'S' ? "v" : (Object) 1.5);
        Arg arg = v;
        return new Scenario("wide fields " + sp.text(0, false, false) + (width ? " by width" : " by precision") + " with " + v.show() + " to " + dest, 65536, n -> {
          int k = 64;
          if (width) sp.width = n;
          else sp.prec = n;
          String f = sp.text(0, star == 1 && width, star == 1 && !width);
          Args a = Args.create();
          for (int i = 0; i < k; i++) {
            if (star == 1) a.put(n);
            arg.put(a);
          }
          FastPrintf g = FastPrintf.compile(rep(f, k * f.length()));
          Out o = Out.of(() -> {
            write(g, a, dest);
            return "";
          });
          if (!o.ok() && !(o.error instanceof io.fastprintf.PrintfException)) throw new Violation("wide field gave " + o);
        });
      }
      case 9: {
        String unit = s.pick("'lit'", "yyyy", "HH:mm:ss ", "uuuu-MM-dd'T'", "''", "'}'", "[HH]", "MM");
        boolean quoted = s.chance(1, 4);
        return new Scenario("date pattern of " + unit + (quoted ? " quoted" : "") + " to " + dest, 1 << 18, n -> {
          String pat = quoted ? "'" + rep("q", n) + "'" : rep(unit + "'|'", n);
          write(options(FastPrintf.compile("%t{" + pat + "}"), opts), Args.of(Instant.EPOCH), dest);
        });
      }
      case 10: {
        int kind = s.below(6);
        Program p = few(s, G.CONVS);
        String f = p.format();
        String unit = G.textOf(s, s.range(1, 10)).replace("%", "%%") + "u";
        return new Scenario("rejected format " + kind + " of " + Show.of(kind == 1 ? f : unit), 1 << 20, n -> {
          String bad = kind == 0 ? rep(unit, n) + "%Q" : kind == 1 ? rep(f, n / 4) + "%" : kind == 2 ? "%" + rep("9", n) + "d"
              : kind == 3 ? "%t{" + rep(unit.replace("}", "").replace("'", ""), n) : kind == 4 ? "%." + rep("0", n) + "1y" : "%t{" + rep("'", n | 1);
          Out o = Out.of(() -> FastPrintf.compile(bad));
          if (!o.ok() && !(o.error instanceof io.fastprintf.PrintfException) && !(o.error instanceof io.fastprintf.PrintfSyntaxException)) throw new Violation("rejected format gave " + o);
          if (!o.ok()) o.error.getMessage();
        });
      }
      case 11: {
        Program p = few(s, "diuxfesScp");
        String f = p.format();
        List<Arg> as = p.args();
        return new Scenario("arguments missing at the end of " + p.show() + " to " + dest, 1 << 17, n -> {
          int k = n / p.pieces.size() + 1;
          FastPrintf g = options(FastPrintf.compile(rep(f, k * f.length()) + "%d"), opts);
          Args a = mixed(as, k);
          Out o = Out.of(() -> {
            write(g, a, dest);
            return "";
          });
          if (o.ok()) throw new Violation("missing argument accepted");
        });
      }
      default: {
        String unit = G.textOf(s, s.range(1, 5)) + "a";
        int way = s.below(6);
        return new Scenario("rope of " + Show.of(unit) + " by " + way, 1 << 17, n -> {
          Seq u = way % 2 == 0 ? Seq.wrap(unit) : Seq.forArray(unit.toCharArray());
          Seq q = Seq.empty();
          for (int i = 0; i < n; i++) {
            if (way < 2) q = q.append(u);
            else if (way < 4) q = q.prepend(u);
            else q = (i & 1) == 0 ? q.append(u) : q.prepend(u);
          }
          if (q.toString().length() != q.length()) throw new Violation("wrong length");
          Seq half = q.subSequence(q.length() / 3, q.length());
          half.upperCase().appendTo(new StringBuilder());
          FastPrintf.compile("%S").format(Args.of(new Object[] {q}));
        });
      }
    }
  }

  private static Args mixed(List<Arg> as, int k) {
    Args r = Args.create();
    for (int i = 0; i < k; i++) for (Arg a : as) a.put(r);
    return r;
  }

  private static long time(Scenario sc, int n) {
    long t = MX.getCurrentThreadCpuTime();
    sc.run.accept(n);
    return MX.getCurrentThreadCpuTime() - t;
  }

  @Override
  void test(Case c) {
    Scenario sc = scenario(c.src);
    c.key(sc.name);
    c.describe(() -> sc.name);
    c.label(sc.name.substring(0, sc.name.indexOf(' ')));
    int n = sc.size;
    sc.run.accept(n >> 8);
    long small = Math.min(time(sc, n >> 4), time(sc, n >> 4));
    long middle = time(sc, n >> 2);
    judge(c, sc, n >> 2, small, middle);
    long full = time(sc, n);
    judge(c, sc, n, small, full);
    c.checks += 2;
    if (full > 2_000_000L) c.nontrivial();
    if (System.getenv("VERIF_TIMES") != null) System.err.println(full / 1000 + " " + small / 1000 + " " + sc.name);
  }

  private static boolean slow(long t, long small) {
    return t > CEILING || t > FLOOR && t > RATIO * Math.max(small, 1000L);
  }

  private static void judge(Case c, Scenario sc, int n, long small, long t) {
    if (!slow(t, small)) return;
    for (int k = 0; k < 2; k++) {
      small = Math.max(small, time(sc, sc.size >> 4));
      t = Math.min(t, time(sc, n));
      if (!slow(t, small)) return;
    }
    c.fail("size " + n + " takes " + t / 1000000 + " ms, size " + (sc.size >> 4) + " takes " + small / 1000000 + " ms: " + sc.name);
  }
}
