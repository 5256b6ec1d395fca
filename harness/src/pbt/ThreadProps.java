package pbt;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.IOException;
import java.lang.invoke.MethodType;
import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.net.URL;
import java.net.URLClassLoader;
import java.time.LocalDateTime;
import java.time.temporal.TemporalAccessor;
import java.time.temporal.TemporalField;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicReference;
import java.util.concurrent.atomic.AtomicReferenceArray;

/** C17: one formatter, many threads. */
final class ThreadProps extends Prop {
  ThreadProps() {
    super("C17");
  }

  @Override
  String rule() {
    return "2 to 4 threads make 1 to 3 calls each through one shared formatter (cached or not, or derived from it); "
        + "at every call-back into an argument (width, precision, value) or destination the next thread is chosen by "
        + "the generated schedule (some threads use another formatter or the same argument list, are interrupted, or have ids a chosen number apart); every result is compared with the model; plus free-running phases (steady use, first calls of new formatters, first calls of a newly loaded library); "
        + "non-trivial when the schedule switches threads at least four times";
  }

  @Override
  int quickCases() {
    return 80000;
  }

  @Override
  String[] assumptions() {
    return new String[] {
      "threads are switched at call-backs into arguments and destinations; switches between other instructions are only reached by the stress phase"
    };
  }

  static final class YCs implements CharSequence {
    final String s;
    final RuntimeException ex;

    YCs(String s, RuntimeException ex) {
      this.s = s;
      this.ex = ex;
    }

    @Override
    public int length() {
      Coop.point();
      return s.length();
    }

    @Override
    public char charAt(int i) {
      Coop.point();
      if (ex != null) throw ex;
      return s.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      Coop.point();
      if (ex != null) throw ex;
      return s.substring(a, b);
    }

    @Override
    public String toString() {
      Coop.point();
      if (ex != null) throw ex;
      return s;
    }
  }

  static final class YObj {
    final String s;
    final RuntimeException ex;

    YObj(String s, RuntimeException ex) {
      this.s = s;
      this.ex = ex;
    }

    @Override
    public String toString() {
      Coop.point();
      if (ex != null) throw ex;
      return s;
    }
  }

  static final class YNum extends Number {
    final long l;
    final double d;

    YNum(long l, double d) {
      this.l = l;
      this.d = d;
    }

    @Override
    public int intValue() {
      Coop.point();
      return (int) l;
    }

    @Override
    public long longValue() {
      Coop.point();
      return l;
    }

    @Override
    public float floatValue() {
      Coop.point();
      return (float) d;
    }

    @Override
    public double doubleValue() {
      Coop.point();
      return d;
    }

    @Override
    public String toString() {
      return "YNum(" + l + "," + d + ")";
    }
  }

  static final class YTime implements TemporalAccessor {
    final LocalDateTime t;

    YTime(LocalDateTime t) {
      this.t = t;
    }

    @Override
    public boolean isSupported(TemporalField f) {
      Coop.point();
      return t.isSupported(f);
    }

    @Override
    public long getLong(TemporalField f) {
      Coop.point();
      return t.getLong(f);
    }

    @Override
    public String toString() {
      return "YTime(" + t + ")";
    }
  }

  static final class YSink implements Appendable {
    final StringBuilder sb = new StringBuilder();

    @Override
    public Appendable append(CharSequence cs) throws IOException {
      Coop.point();
      sb.append(cs);
      Coop.point();
      return this;
    }

    @Override
    public Appendable append(CharSequence cs, int a, int b) throws IOException {
      Coop.point();
      sb.append(cs, a, b);
      Coop.point();
      return this;
    }

    @Override
    public Appendable append(char ch) throws IOException {
      Coop.point();
      sb.append(ch);
      return this;
    }
  }

  /** Replaces arguments by ones that are switch points. */
  private static Program yielding(Src s, Program p, Kinds.UserException ex) {
    Program r = StateProps.refill(s, p);
    int n = s.below(100) < 15 ? s.below(r.pieces.size()) : -1; // the piece that throws
    for (int i = 0; i < r.pieces.size(); i++) {
      Program.Piece x = r.pieces.get(i);
      if (x.literal != null) continue;
      if (x.starWidth != null && s.chance(2, 3)) x.starWidth = Arg.of(new YNum(s.range(0, 40) - 20, 0));
      if (x.starPrec != null && s.chance(2, 3)) x.starPrec = Arg.of(new YNum(s.range(0, 14) - 2, 0));
      if (s.chance(1, 4)) continue;
      char k = x.spec.lowerConv();
      if (k == 's') {
        String t = G.textOf(s, s.range(0, 12));
        RuntimeException e = i == n ? ex : null;
        x.value = Arg.of(s.bool() ? new YCs(e != null && t.isEmpty() ? "x" : t, e) : new YObj(t, e));
        if (e != null) {
          x.spec.prec = x.starPrec == null ? x.spec.prec : x.spec.prec;
        }
      } else if ("diuox".indexOf(k) >= 0) x.value = Arg.of(new YNum(s.bits() >> s.below(64), 0));
      else if ("fega".indexOf(k) >= 0) x.value = Arg.of(new YNum(0, G.finite(s)));
      else if (k == 't' && x.spec.datePattern != null) {
        Arg t = Arg.of(new YTime(LocalDateTime.of(2000 + s.below(50), 1 + s.below(12), 1 + s.below(28), s.below(24), s.below(60), s.below(60))));
        if (Check.expect(x.spec, t).reject == null) x.value = t;
      }
    }
    return r;
  }

  private static final class Job {
    FastPrintf f;
    Program p;
    boolean sink;
    boolean interrupted;
    Out exp;
    Out act;

    Args args;
    boolean second;

    void run() {
      Args a = args;
      if (interrupted) Thread.currentThread().interrupt();
      act = Out.of(() -> sink ? f.format(new YSink(), a).sb.toString() : f.format(a));
      Thread.interrupted();
    }
  }

  @Override
  void test(Case c) {
    Src s = c.src;
    Program p = Program.good(s, 4, "ssSdxfegtcau", 1, 3);
    String f = p.format();
    Program other = s.chance(1, 3) ? Program.good(s, 4, "ssSdxfegtcau", 1, 3) : null; // another formatter in use meanwhile
    String g = other == null ? null : other.format();
    FastPrintf og = other == null ? null : FastPrintf.compile(g);
    List<FastPrintf> fs = new ArrayList<>();
    fs.add(FastPrintf.compile(f));
    if (s.chance(2, 3)) fs.set(0, fs.get(0).enableThreadLocalCache());
    if (s.bool()) fs.add(fs.get(0).setStringBuilderInitialCapacity(s.pickInt(1, 16, 100)));
    int threads = s.range(2, 4);
    List<List<Job>> all = new ArrayList<>();
    StringBuilder log = new StringBuilder(Show.of(f));
    if (other != null) log.append(" and ").append(Show.of(g));
    for (int i = 0; i < threads; i++) {
      List<Job> jobs = new ArrayList<>();
      log.append("; thread ").append(i).append(':');
      for (int k = s.range(1, 3); k > 0; k--) {
        Job j = new Job();
        Kinds.UserException ex = new Kinds.UserException("thread " + i);
        boolean second = other != null && s.chance(1, 3);
        j.f = second ? og : fs.get(s.below(fs.size()));
        j.second = second;
        j.p = yielding(s, second ? other : p, ex);
        j.args = Arg.args(j.p.args());
        if (s.chance(1, 4)) { // the very list another call uses
          for (List<Job> l : all) {
            for (Job x : l) {
              if (x.second != second || x.args == null) continue;
              j.p = x.p;
              j.args = x.args;
            }
          }
        }
        j.sink = s.chance(1, 4);
        j.interrupted = s.chance(1, 12);
        j.exp = Out.of(() -> FastPrintf.compile(second ? g : f).format(Arg.args(j.p.args())));
        if (j.exp.ok()) c.same(Out.text(j.p.text()), j.exp, "alone: " + Show.of(second ? g : f));
        jobs.add(j);
        log.append(uses(all, j.args) ? " shared" : "").append(second ? " second" : "").append(j.interrupted ? " interrupted " : " ").append(shown(j.p));
      }
      all.add(jobs);
    }
    c.key(log.toString());
    c.describe(log::toString);
    Coop coop = new Coop();
    if (s.chance(1, 12)) coop.gap = s.bool() ? 1 << s.range(1, 8) : (int) Math.floorMod(G.dictLong(s), 1024L) + 1;
    for (List<Job> jobs : all) {
      coop.add(() -> {
        for (Job j : jobs) j.run();
      }, 60);
    }
    try {
      coop.run(s);
    } catch (RuntimeException | Error e) {
      throw e;
    } catch (Throwable t) {
      throw new RuntimeException(t);
    }
    c.key(coop.switches);
    if (coop.switches >= 4) c.nontrivial();
    c.label("switches " + (coop.switches > 20 ? ">20" : coop.switches >= 4 ? "4..20" : "<4"));
    for (int i = 0; i < threads; i++) {
      for (Job j : all.get(i)) {
        boolean ok = j.exp.ok() ? j.exp.equals(j.act) : j.act.error == j.exp.error || (j.exp.rejected() && j.act.rejected());
        c.checks++;
        if (!j.exp.ok()) c.label("failing call");
        if (!ok) {
          c.fail("thread " + i + " formatting " + Show.of(f) + " with " + shown(j.p) + " concurrently\n  expected: "
              + j.exp + "\n  actual:   " + j.act);
        }
      }
    }
  }

  private static boolean uses(List<List<Job>> all, Args a) {
    for (List<Job> l : all) for (Job j : l) if (j.args == a) return true;
    return false;
  }

  private static String shown(Program p) {
    StringBuilder sb = new StringBuilder("[");
    for (Arg a : p.args()) {
      Object v = a.value;
      String t = v instanceof YCs ? "YCs(" + Show.of(((YCs) v).s) + (((YCs) v).ex != null ? ", throws" : "") + ")"
          : v instanceof YObj ? "YObj(" + Show.of(((YObj) v).s) + (((YObj) v).ex != null ? ", throws" : "") + ")" : a.show();
      sb.append(sb.length() > 1 ? ", " : "").append(t);
    }
    return sb.append(']').toString();
  }

  /** Threads running freely; harmless when the property holds, so never a false alarm. */
  @Override
  void once(Counters counters, boolean thorough) {
    Src s = new Src(42);
    int rounds = thorough ? 1200 : 160;
    String convs = "diuoxXfFeEgGaAcsStTp";
    for (int r = 0; r < rounds; r++) {
      // every other time a single conversion, whose code all threads run at once
      Program p = r % 2 == 0 ? Program.good(s, 5, "ssSdxXfegGEtcaus", 1, 3) : single(s, convs.charAt(r / 2 % convs.length()));
      FastPrintf f = FastPrintf.compile(p.format());
      FastPrintf shared = r % 3 == 0 ? f : f.enableThreadLocalCache();
      int variants = 12;
      List<List<Arg>> args = new ArrayList<>();
      List<String> exp = new ArrayList<>();
      for (int v = 0; v < variants; v++) {
        Program q = StateProps.refill(s, p);
        if (r % 2 == 1) {
          Program.Piece x = q.pieces.get(0);
          for (int k = 0; k < 20; k++) {
            Arg a = G.any(s);
            if (Check.expect(x.spec, a).reject == null) {
              x.value = a;
              break;
            }
          }
        }
        args.add(q.args());
        exp.add(q.text());
      }
      List<Args> lists = new ArrayList<>(); // used by several threads at once
      for (List<Arg> l : args) lists.add(Arg.args(l));
      AtomicReference<String> bad = new AtomicReference<>();
      Thread[] ts = new Thread[8];
      for (int t = 0; t < ts.length; t++) {
        int id = t;
        ts[t] = new Thread(() -> {
          for (int k = 0; k < 800 && bad.get() == null; k++) {
            int v = (k * 7 + id * 5) % variants;
            Args a = id % 2 == 0 ? lists.get(v) : Arg.args(args.get(v));
            Out o = Out.of(() -> (k(id) ? shared.format(new StringBuffer(), a).toString() : shared.format(a)));
            if (!exp.get(v).equals(o.value)) {
              bad.compareAndSet(null, Show.of(p.format()) + " with " + args.get(v) + " while other threads format\n  expected: "
                  + Show.of(exp.get(v)) + "\n  actual:   " + o);
            }
          }
        });
        ts[t].start();
      }
      for (Thread t : ts) {
        try {
          t.join();
        } catch (InterruptedException e) {
          throw new RuntimeException(e);
        }
      }
      counters.checks += 8 * 800;
      if (bad.get() != null) throw new Violation("stress: " + bad.get());
    }
    counters.label("stress rounds " + rounds);
    firstUses(counters, s, thorough ? 200000 : 24000);
    firstLoads(counters, s, thorough ? 2500 : 250);
  }

  /** Several threads are the first to use the library at all: each round loads it anew. */
  private static void firstLoads(Counters counters, Src s, int rounds) {
    URL home = FastPrintf.class.getProtectionDomain().getCodeSource().getLocation();
    String convs = "diuoxXfFeEgGaAcsStTp";
    int threads = Math.max(2, Math.min(6, Runtime.getRuntime().availableProcessors()));
    long deadline = System.nanoTime() + 60_000_000_000L;
    int done = 0;
    for (; done < rounds && System.nanoTime() < deadline; done++) {
      int n = done % 5 == 0 ? 1 : threads;
      boolean same = s.chance(1, 3);
      String[] formats = new String[n];
      Arg[][] args = new Arg[n][];
      String[] exp = new String[n];
      boolean[] compileFirst = new boolean[n];
      for (int t = 0; t < n; t++) {
        compileFirst[t] = s.bool();
        if (t > 0 && same) {
          formats[t] = formats[0];
          args[t] = args[0];
          exp[t] = exp[0];
          continue;
        }
        Program p = s.bool() ? single(s, convs.charAt(s.below(convs.length()))) : Program.good(s, 3, "ssSdxXfegGEtcau", 1, 3);
        while (!ofThePlatform(p)) p = single(s, convs.charAt(s.below(convs.length())));
        formats[t] = p.format();
        args[t] = p.args().toArray(new Arg[0]);
        exp[t] = p.text();
      }
      Out[] outs = new Out[n];
      AtomicInteger here = new AtomicInteger();
      Thread[] ts = new Thread[n];
      try (URLClassLoader loader = new URLClassLoader(new URL[] {home}, ClassLoader.getSystemClassLoader().getParent())) {
        Class<?> type = loader.loadClass("io.fastprintf.FastPrintf");
        Method compile = type.getMethod("compile", String.class);
        Class<?> lists = loader.loadClass("io.fastprintf.Args");
        Method create = lists.getMethod("create");
        Method format = type.getMethod("format", lists);
        Method[][] puts = new Method[n][];
        for (int t = 0; t < n; t++) {
          puts[t] = new Method[args[t].length];
          for (int k = 0; k < puts[t].length; k++) puts[t][k] = put(lists, args[t][k]);
        }
        for (int t = 0; t < n; t++) {
          int id = t;
          ts[t] = new Thread(() -> {
            here.incrementAndGet();
            for (int w = 1; here.get() < n; w++) if (w % 4000 == 0) Thread.yield();
            outs[id] = Out.of(() -> {
              try {
                Object f = compileFirst[id] ? compile.invoke(null, formats[id]) : null;
                Object list = create.invoke(null);
                for (int k = 0; k < puts[id].length; k++) puts[id][k].invoke(list, args[id][k].value);
                return format.invoke(f != null ? f : compile.invoke(null, formats[id]), list);
              } catch (InvocationTargetException e) {
                throw e.getCause();
              }
            });
          });
          ts[t].setDaemon(true);
          ts[t].start();
        }
        if (!finish(ts)) throw new Violation("stress: " + n + " threads formatting for the first time after loading never finish: " + shown(formats, args));
      } catch (IOException | ReflectiveOperationException e) {
        throw new RuntimeException(e);
      }
      counters.checks += n;
      for (int t = 0; t < n; t++) {
        if (!exp[t].equals(outs[t].value)) {
          throw new Violation("stress: " + Show.of(formats[t]) + " by thread " + t + " of " + n + " formatting for the first time after loading: " + shown(formats, args)
              + "\n  expected: " + Show.of(exp[t]) + "\n  actual:   " + outs[t]);
        }
      }
    }
    counters.label("rounds of first loads " + done);
  }

  /** Whether a program is accepted and its arguments are seen alike by every class loader. */
  private static boolean ofThePlatform(Program p) {
    for (Program.Piece x : p.pieces) {
      if (x.literal == null && Check.expect(x.resolved(), x.value).reject != null) return false;
    }
    for (Arg a : p.args()) {
      if (a.value != null && (a.value.getClass().getClassLoader() != null || a.value.getClass().isArray())) return false;
    }
    return true;
  }

  /** The method that adds an argument to a list of the given, separately loaded, class. */
  private static Method put(Class<?> lists, Arg a) throws NoSuchMethodException {
    if (!a.primitive) return lists.getMethod("put", Object.class);
    Class<?> type = MethodType.methodType(a.value.getClass()).unwrap().returnType();
    String name = type.getName();
    return lists.getMethod("put" + Character.toUpperCase(name.charAt(0)) + name.substring(1), type);
  }

  private static String shown(String[] formats, Arg[][] args) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < formats.length; i++) {
      sb.append(i > 0 ? "; " : "").append(Show.of(formats[i]));
      for (Arg a : args[i]) sb.append(' ').append(a.show());
    }
    return sb.toString();
  }

  /** Waits for the threads; false when some of them are stuck without using any time. */
  private static boolean finish(Thread[] ts) {
    ThreadMXBean mx = ManagementFactory.getThreadMXBean();
    long[] before = new long[ts.length];
    int idle = 0;
    try {
      for (;;) {
        boolean alive = false;
        boolean moved = false;
        for (int i = 0; i < ts.length; i++) {
          ts[i].join(alive ? 1 : 1000);
          if (!ts[i].isAlive()) continue;
          alive = true;
          long cpu = mx.getThreadCpuTime(ts[i].getId());
          if (cpu != before[i]) moved = true;
          before[i] = cpu;
        }
        if (!alive) return true;
        idle = moved ? 0 : idle + 1;
        if (idle >= 20) return false;
      }
    } catch (InterruptedException e) {
      throw new RuntimeException(e);
    }
  }

  /** What the threads of {@link #firstUses} do in one round. */
  private static final class Round {
    FastPrintf[] f;
    Args[] args;
    String[] exp;
    String shown;
  }

  /** Several threads make the first calls of a formatter at the same moment, again and again with new formatters. */
  private static void firstUses(Counters counters, Src s, int rounds) {
    int threads = Math.max(2, Math.min(6, Runtime.getRuntime().availableProcessors()));
    AtomicReference<String> bad = new AtomicReference<>();
    AtomicReferenceArray<Round> slots = new AtomicReferenceArray<>(rounds + 1);
    AtomicInteger ready = new AtomicInteger();
    Round end = new Round();
    Thread[] ts = new Thread[threads];
    for (int t = 0; t < threads; t++) {
      int id = t;
      ts[t] = new Thread(() -> {
        for (int k = 0; k <= rounds; k++) {
          Round r;
          for (int w = 1; (r = slots.get(k)) == null; w++) if (w % 4000 == 0) Thread.yield();
          if (r == end) return;
          FastPrintf f = r.f[id];
          Args a = r.args[id];
          boolean derive = (k + id) % 7 == 0;
          Out o = Out.of(() -> derive ? f.enableThreadLocalCache().setStringBuilderInitialCapacity(16).format(a) : f.format(a));
          if (!r.exp[id].equals(o.value)) {
            bad.compareAndSet(null, r.shown + " by several threads at once for the first time\n  expected: " + Show.of(r.exp[id]) + "\n  actual:   " + o);
          }
          ready.incrementAndGet();
        }
      });
      ts[t].setDaemon(true);
      ts[t].start();
    }
    long deadline = System.nanoTime() + 60_000_000_000L; // on a machine too busy to run the threads side by side
    Program p = null;
    List<List<Arg>> args = new ArrayList<>();
    List<String> exp = new ArrayList<>();
    int done = 0;
    for (; done < rounds && bad.get() == null && System.nanoTime() < deadline; done++) {
      if (done % 40 == 0) {
        p = Program.good(s, 4, "ssSdxXfegGEtcaus", 1, 3);
        args.clear();
        exp.clear();
        for (int v = 0; v < 4; v++) {
          Program q = v == 0 ? p : StateProps.refill(s, p);
          args.add(q.args());
          exp.add(q.text());
        }
      }
      Round r = new Round();
      r.f = new FastPrintf[threads];
      r.args = new Args[threads];
      r.exp = new String[threads];
      r.shown = Show.of(p.format());
      FastPrintf f = FastPrintf.compile(p.format());
      if (done % 3 == 1) f = f.enableThreadLocalCache();
      Args list = Arg.args(args.get(0));
      for (int t = 0; t < threads; t++) {
        // one formatter for all, or one list for all given to formatters of their own, or both
        int v = done % 4 == 0 ? t % 4 : 0;
        r.f[t] = done % 8 == 7 ? FastPrintf.compile(p.format()) : f;
        r.args[t] = v == 0 && done % 2 == 1 ? list : Arg.args(args.get(v));
        r.exp[t] = exp.get(v);
      }
      ready.set(0);
      slots.set(done, r);
      for (int w = 1; ready.get() < threads; w++) if (w % 4000 == 0) Thread.yield();
      slots.set(done, end); // every thread is past it
    }
    slots.set(done, end);
    for (Thread t : ts) {
      try {
        t.join();
      } catch (InterruptedException e) {
        throw new RuntimeException(e);
      }
    }
    counters.checks += (long) done * threads;
    counters.label("rounds of first uses " + done);
    if (bad.get() != null) throw new Violation("stress: " + bad.get());
  }

  private static Program single(Src s, char conv) {
    Program p = new Program();
    p.add(Program.conv(s, String.valueOf(conv)));
    return p;
  }

  private static boolean k(int id) {
    return id == 7;
  }
}
