package pbt;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/** C29 and C30: memory use and evaluation of arguments. */
final class CostProps {
  private CostProps() {}

  static final class Memory extends Prop {
    Memory() {
      super("C29");
    }

    private static final int BASE = 48 << 10;
    private static final int CALL = 6 << 10;
    private static final int PER_UNIT = 160;

    @Override
    String rule() {
      return "compiling, collecting arguments and formatting (to a string, a builder, a writer) for generated programs (ordinary, up to "
          + "twenty thousand pieces, long texts, wide fields, decimals with exponents up to two thousand million) must allocate at most "
          + BASE + " bytes plus " + PER_UNIT + " per character of format, argument, reserved capacity and output (least of three measurements, so "
          + "that one-time initialisation does not count), and give the model's text; in histories of calls of one formatter, cached or not, sometimes after a "
          + "long output, the later calls may allocate " + CALL + " bytes plus " + PER_UNIT + " per character each; non-trivial when something is large: "
          + "an argument, a width, an exponent, the number of pieces or of calls";
    }

    @Override
    int quickCases() {
      return 60000;
    }

    @Override
    String[] assumptions() {
      return new String[] {"memory means bytes allocated by the calling thread; running time is only bounded by the per-case watchdog"};
    }

    private static final com.sun.management.ThreadMXBean MX =
        (com.sun.management.ThreadMXBean) java.lang.management.ManagementFactory.getThreadMXBean();

    /** The runtime's own conversion of long integers takes quadratic memory. */
    private static long digits(long n) {
      return 40 + n + n * n / 100;
    }

    private static long size(Object o) {
      if (o instanceof CharSequence) return ((CharSequence) o).length();
      if (o instanceof BigDecimal) return digits(((BigDecimal) o).precision());
      if (o instanceof BigInteger) return digits(((BigInteger) o).bitLength() / 3);
      try {
        return Model.textOf(o).length() + 40L;
      } catch (RuntimeException e) {
        return 400;
      }
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      final Program p;
      int cap = -1;
      boolean large = true;
      switch (s.weighted(60, 30, 40, 80, 30, 40, 1)) {
        case 5:
          history(c);
          return;
        case 6: { // very many pieces
          p = new Program();
          Program.Piece a = Program.goodPiece(s, "diuxfesScnp", 1, 6);
          Program.Piece b = Program.goodPiece(s, "diuxfesScnp", 1, 6);
          while (a.expect().text.length() > 20) a = Program.literal("ab");
          while (b.expect().text.length() > 20) b = Program.literal("%");
          int n = s.pickInt(3000, 6000, 10000);
          for (int i = 0; i < n; i++) {
            p.pieces.add(a);
            p.pieces.add(b);
          }
          c.label("thousands of pieces");
          break;
        }
        case 0:
          p = Program.good(s, 6, G.CONVS, 1, 6);
          large = false;
          break;
        case 1:
          p = Program.big(s, G.CONVS, 1, 6);
          break;
        case 2: { // a long text
          p = new Program();
          Spec sp = G.spec(s, s.pickChar("sS"));
          String t = G.textOf(s, s.pickInt(1000, 10000, 65536, 200000));
          if (s.bool()) sp.prec = s.pickInt(1, 10, 5000);
          p.add(Program.conv(sp, Arg.of(G.chars(s, t))));
          break;
        }
        case 3: { // a decimal far from one
          p = new Program();
          boolean tiny = s.bool();
          Spec sp = G.spec(s, s.pickChar(tiny ? "eEgGfFdiuxos" : "eEgGs"));
          int scale = s.pickInt(1000, 30000, 1000000, 40000000, 2000000000) + s.range(0, 30);
          BigInteger u = new BigInteger(G.digitString(s, s.range(1, 40)));
          p.add(Program.conv(sp, Arg.of(new BigDecimal(s.bool() && "uxo".indexOf(sp.conv) < 0 ? u.negate() : u, tiny ? scale : -scale))));
          c.label(tiny ? "tiny decimal" : "huge decimal");
          break;
        }
        default: { // a wide field
          p = Program.good(s, 3, G.CONVS, 1, 6);
          Spec sp = G.spec(s, s.pickChar("diuoxXfeEgasS"));
          if (s.bool()) sp.width = s.pickInt(1000, 30000, 65536);
          else sp.prec = s.pickInt(1000, 30000, 65536);
          Program.Piece x = Program.conv(sp, G.natural(s, sp.conv));
          if (x.expect().reject == null) p.add(x);
          if (s.chance(1, 3)) cap = s.pickInt(1, 100, 65536, 100000);
        }
      }
      p.key(c);
      boolean brief = p.pieces.size() > 2000;
      c.describe(() -> brief ? p.pieces.size() + " pieces, " + Show.of(p.format().substring(0, 100)) : p.show());
      if (large) c.nontrivial();
      String f = p.format();
      String exp = p.text();
      List<Arg> as = p.args();
      long units = f.length() + (long) exp.length() + Math.max(cap, 0);
      for (Arg a : as) units += size(a.value);
      long limit = BASE + PER_UNIT * units;
      boolean cached = s.chance(1, 4);
      int cp = cap;
      int dest = s.below(3);
      String name = brief ? p.pieces.size() + " pieces" : p.show();
      long best = Long.MAX_VALUE;
      for (int k = 0; k < 3 && best > limit; k++) {
        long before = MX.getThreadAllocatedBytes(Thread.currentThread().getId());
        Out o = Out.of(() -> {
          FastPrintf g = FastPrintf.compile(f);
          if (cp > 0) g = g.setStringBuilderInitialCapacity(cp);
          if (cached) g = g.enableThreadLocalCache();
          if (dest == 1) return g.format(new StringBuilder(), Arg.args(as)).toString();
          if (dest == 2) return g.format(new java.io.StringWriter(), Arg.args(as)).toString();
          return g.format(Arg.args(as));
        });
        long used = MX.getThreadAllocatedBytes(Thread.currentThread().getId()) - before;
        best = Math.min(best, used);
        c.same(Out.text(exp), o, "wrong result for " + name);
      }
      max(BASE, best, units, name);
      c.checks++;
      if (best > limit) {
        c.fail(name + " allocated " + best + " bytes for " + units + " characters of format, arguments and output; the limit is " + limit);
      }
    }

    /** Many calls of one formatter. */
    private void history(Case c) {
      Src s = c.src;
      Program p = Program.good(s, 3, "diuoxXfFeEgGaAcsSnp", 1, 6);
      String f = p.format();
      List<Arg> as = p.args();
      String exp = p.text();
      int calls = s.pickInt(10, 30, 100, 300);
      int cap = s.chance(1, 4) ? s.pickInt(1, 100, 5000) : 0;
      boolean cached = s.chance(3, 4);
      int large = s.chance(1, 4) ? s.pickInt(1000, 65535, 70000, 300000) : 0;
      int dest = s.below(4);
      p.key(c);
      c.key(calls + " " + cap + " " + cached + " " + large + " " + dest);
      String name = calls + " calls of " + p.show() + (cached ? ", cached" : "") + (cap > 0 ? ", capacity " + cap : "") + (large > 0 ? ", after an output of " + large : "");
      c.describe(() -> name);
      c.label("history");
      c.nontrivial();
      String big = large > 0 ? Model.rep('x', large) : null;
      long units = f.length() + exp.length() + (cached ? 0 : cap);
      for (Arg a : as) units += size(a.value);
      long limit = CALL + PER_UNIT * units + 4 * cap; // a buffer of the requested capacity may be new for each call
      long best = Long.MAX_VALUE;
      for (int k = 0; k < 3 && best > limit; k++) {
        FastPrintf g = FastPrintf.compile(big == null ? f : f + "%s");
        if (cap > 0) g = g.setStringBuilderInitialCapacity(cap);
        if (cached) g = g.enableThreadLocalCache();
        FastPrintf h = g;
        List<Arg> more = new ArrayList<>(as);
        if (big != null) more.add(Arg.of(big));
        c.same(Out.text(big == null ? exp : exp + big), Out.of(() -> h.format(Arg.args(more))), "first call, " + name);
        List<Arg> rest = new ArrayList<>(as);
        if (big != null) rest.add(Arg.of(""));
        String last = null;
        for (int i = 0; i < 2; i++) last = h.format(Arg.args(rest)); // the first one after a long output may replace the buffer
        StringBuilder sb = new StringBuilder(exp.length() + 16);
        long before = MX.getThreadAllocatedBytes(Thread.currentThread().getId());
        for (int i = 0; i < calls; i++) {
          if (dest == 3) {
            sb.setLength(0);
            h.format(sb, Arg.args(rest));
          } else last = h.format(Arg.args(rest));
        }
        long used = MX.getThreadAllocatedBytes(Thread.currentThread().getId()) - before;
        best = Math.min(best, used / calls);
        c.same(exp, dest == 3 ? sb.toString() : last, "last call, " + name);
      }
      max(CALL, best, units, name);
      c.checks++;
      if (best > limit) c.fail(name + ": each call allocated " + best + " bytes for " + units + " characters of format, arguments and output; the limit is " + limit);
    }

    private static final boolean TRACE = System.getenv("VERIF_VERBOSE") != null;
    private static double worst;

    private static synchronized void max(long base, long used, long units, String name) {
      if (!TRACE) return;
      double r = (double) used / (base + PER_UNIT * units);
      if (r > worst) {
        worst = r;
        System.out.println("largest share of the allowance: " + r + " (" + used + " bytes, " + units + " units) " + (name.length() > 300 ? name.substring(0, 300) : name));
      }
    }
  }

  /** Objects whose text is asked for are logged. */
  static final class Evaluation extends Prop {
    Evaluation() {
      super("C30");
    }

    @Override
    String rule() {
      return "programs over objects, arrays and collections of objects that log every request for their text are built, "
          + "reported and formatted (to a string, builder or user-defined destination, twice, with surplus arguments, sometimes with an "
          + "unsuitable argument in the middle or too few arguments); the log must show no request before formatting and then exactly one per shown object, in order (at most one when the precision is 0); "
          + "non-trivial when at least two objects are shown";
    }

    @Override
    int quickCases() {
      return 2000000;
    }

    private static final class Logged {
      final List<Integer> log;
      final int id;
      final String text;

      Logged(List<Integer> log, int id, String text) {
        this.log = log;
        this.id = id;
        this.text = text;
      }

      @Override
      public String toString() {
        log.add(id);
        return text;
      }
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      List<Integer> log = new ArrayList<>();
      List<Integer> want = new ArrayList<>();
      List<Integer> optional = new ArrayList<>(); // cut to nothing: may be asked or not
      StringBuilder f = new StringBuilder();
      StringBuilder exp = new StringBuilder();
      List<Object> values = new ArrayList<>();
      int n = s.chance(1, 20) ? s.range(1, 40) : s.range(1, 6);
      int fail = s.chance(1, 6) ? s.below(n) : -1;
      int next = 0;
      int shown = 0;
      List<Integer> asked = new ArrayList<>(); // requests made before each value
      for (int i = 0; i < n; i++) {
        String lit = s.chance(1, 3) ? "" : s.pick("|", " and ", "100%");
        f.append(lit.replace("%", "%%"));
        exp.append(lit);
        if (i == fail) {
          f.append(s.pick("%d", "%f", "%x", "%c", "%t", "%g"));
          values.add(new Kinds.Plain());
          asked.add(want.size());
          continue;
        }
        boolean live = fail < 0 || i < fail;
        asked.add(want.size());
        switch (s.weighted(10, 3, 2, 2, 2, 2)) {
          case 0: {
            String t = G.textOf(s, s.range(0, 8));
            Spec sp = G.spec(s, s.pickChar("sS"));
            f.append(sp.text());
            values.add(new Logged(log, next, t));
            if (sp.prec == 0) optional.add(next);
            else if (live) want.add(next);
            exp.append(Model.format(sp, Arg.of(t)));
            next++;
            shown++;
            break;
          }
          case 1: { // an array or collection
            Object[] a = new Object[s.range(0, 4)];
            StringBuilder t = new StringBuilder("[");
            for (int k = 0; k < a.length; k++) {
              String e = G.textOf(s, s.range(0, 3));
              a[k] = new Logged(log, next, e);
              if (live) want.add(next);
              next++;
              t.append(k > 0 ? ", " : "").append(e);
              shown++;
            }
            f.append("%s");
            values.add(s.bool() ? a : Arrays.asList(a));
            exp.append(t).append(']');
            break;
          }
          case 2:
            f.append("%5n");
            values.add(new Logged(log, -1, "never"));
            break;
          case 3: {
            Logged x = new Logged(log, -1, "never");
            f.append("%p");
            values.add(x);
            exp.append(x.getClass().getName()).append('@').append(Integer.toHexString(System.identityHashCode(x)));
            break;
          }
          case 4:
            f.append("%d");
            values.add(7);
            exp.append('7');
            break;
          default:
            f.append("%s");
            values.add("text");
            exp.append("text");
        }
      }
      int missing = fail < 0 && s.chance(1, 8) ? s.range(1, values.size()) : 0;
      if (missing > 0) {
        int keep = values.size() - missing;
        values.subList(keep, values.size()).clear();
        want.subList(asked.get(keep), want.size()).clear();
        c.label("too few arguments");
      } else if (fail >= 0) c.label("unsuitable argument");
      if (missing == 0) for (int k = s.below(3); k > 0; k--) values.add(new Logged(log, -1, "surplus"));
      c.key(f.toString());
      c.key(exp.toString().replaceAll("@[0-9a-f]+", "@"));
      String shownFormat = Show.of(f.toString());
      int total = values.size();
      c.describe(() -> shownFormat + " with " + total + " values");
      if (shown >= 2) c.nontrivial();
      FastPrintf fp = FastPrintf.compile(f.toString());
      if (s.bool()) fp = fp.enableThreadLocalCache();
      Args args;
      switch (s.below(4)) {
        case 0:
          args = Args.of(values.toArray());
          break;
        case 1:
          args = Args.of(values);
          break;
        default:
          args = s.bool() ? Args.create() : Args.createWithExpectedSize(s.below(20));
          for (Object v : values) args = args.put(v);
      }
      args.values().size();
      c.ok(log.isEmpty(), "building the arguments of " + shownFormat + " asked for the text of " + log);
      FastPrintf g = fp;
      Args as = args;
      for (int round = 0; round < 2; round++) {
        log.clear();
        int way = s.below(3);
        StringBuilder sb = new StringBuilder();
        Sinks.Plain sink = new Sinks.Plain(null);
        Out o = Out.of(() -> {
          if (way == 0) return g.format(as);
          if (way == 1) return g.format(sb, as).toString();
          g.format(sink, as);
          return sink.text().toString();
        });
        if (fail < 0 && missing == 0) c.same(Out.text(exp.toString()), o, "wrong result for " + shownFormat);
        else c.ok(o.rejected(), (missing > 0 ? "too few arguments for " : "an unsuitable argument in ") + shownFormat + ": " + o);
        for (Integer x : optional) {
          if (log.remove(x)) c.ok(!log.contains(x), shownFormat + " asked twice for the text of an object cut to nothing");
        }
        c.same(want.toString(), log.toString(), "requests for the objects' text by " + shownFormat + (way == 0 ? "" : " into a destination"));
      }
    }
  }
}
