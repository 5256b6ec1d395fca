package pbt;

import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicReference;

/** Runs generated cases over the cores, keeps the first failing case, shrinks it. */
final class Engine {

  /** CPU seconds one case may take before it counts as not terminating. Cases take milliseconds. */
  private static final long HANG_CPU_NANOS = 120_000_000_000L;

  static final class Failure {
    final long index;
    long[] tape;
    String message;
    String description;
    int shrinkSteps;

    Failure(long index, long[] tape, String message) {
      this.index = index;
      this.tape = tape;
      this.message = message;
    }
  }

  final Prop prop;
  final long seed;
  final Counters total = new Counters();
  private final AtomicLong next = new AtomicLong();
  private final AtomicLong minFail = new AtomicLong(Long.MAX_VALUE);
  private final AtomicReference<Failure> failure = new AtomicReference<>();
  private final AtomicReference<Throwable> harnessError = new AtomicReference<>();

  Engine(Prop prop, long seed) {
    this.prop = prop;
    this.seed = seed;
  }

  long[] caseDigests; // per case, when asked for

  long caseSeed(long index) {
    long h = Case.mix(seed * 0x9E3779B97F4A7C15L + prop.id.hashCode());
    return Case.mix(h + index * 0xD1342543DE82EF95L);
  }

  private final class Worker extends Thread {
    final Counters counters = new Counters();
    final long cases;
    volatile Src current;
    volatile long currentIndex = -1;
    volatile long startedCpu;

    Worker(int n, long cases) {
      super(null, null, "pbt-" + n, 1L << 20);
      this.cases = cases;
      setDaemon(true);
    }

    @Override
    public void run() {
      ThreadMXBean mx = ManagementFactory.getThreadMXBean();
      try {
        final boolean perCase = prop.quickCases() < 10000;
        final int block = perCase ? 4 : 64;
        while (harnessError.get() == null) {
          long from = next.getAndAdd(block);
          if (from >= cases || from > minFail.get()) return;
          long to = Math.min(cases, from + block);
          startedCpu = mx.getCurrentThreadCpuTime();
          for (long i = from; i < to; i++) {
            if (i > minFail.get()) return;
            Src src = new Src(caseSeed(i));
            current = src;
            currentIndex = i;
            if (perCase) startedCpu = mx.getCurrentThreadCpuTime();
            Case c = new Case(src, counters);
            try {
              test(c);
            } catch (Violation v) {
              record(new Failure(i, src.used(), v.getMessage()));
              return;
            }
            counters.evaluations++;
            counters.checks += c.checks;
            counters.digest += mixed(c, i);
            if (caseDigests != null) caseDigests[(int) i] = mixed(c, i);
            if (c.nontrivial) {
              counters.nontrivial++;
              counters.distinct.add(c.key());
              if (i < 200 && counters.samples.size() < 2) counters.samples.add(c.description());
            }
          }
        }
      } catch (Throwable t) {
        harnessError.compareAndSet(null, t);
      }
    }
  }

  /** An exception escaping from the library at an unexpected place is a violation too. */
  private void test(Case c) {
    try {
      prop.test(c);
    } catch (Violation v) {
      throw v;
    } catch (Throwable t) {
      for (Throwable x = t; x != null; x = x.getCause()) {
        for (StackTraceElement e : x.getStackTrace()) {
          if (e.getClassName().startsWith("io.fastprintf.")) {
            throw new Violation("unexpected " + t + " from the library at " + e);
          }
        }
      }
      throw t;
    }
  }

  private static long mixed(Case c, long i) {
    return c.digest == 0 ? 0 : Case.mix(c.digest ^ Case.mix(i + 1));
  }

  private void record(Failure f) {
    synchronized (failure) {
      Failure old = failure.get();
      if (old == null || f.index < old.index) {
        failure.set(f);
        minFail.set(f.index);
      }
    }
  }

  /** Null when the property held on every case. */
  Failure run(long cases) throws Exception {
    int threads = prop.singleThreaded() ? 1 : Math.max(1, Runtime.getRuntime().availableProcessors());
    Worker[] ws = new Worker[threads];
    for (int i = 0; i < threads; i++) {
      ws[i] = new Worker(i, cases);
      ws[i].start();
    }
    ThreadMXBean mx = ManagementFactory.getThreadMXBean();
    boolean hung = false;
    boolean alive = true;
    while (alive && !hung) {
      alive = false;
      for (Worker w : ws) {
        w.join(100);
        if (!w.isAlive()) continue;
        alive = true;
        long cpu = mx.getThreadCpuTime(w.getId());
        if (cpu >= 0 && w.currentIndex >= 0 && cpu - w.startedCpu > HANG_CPU_NANOS) {
          record(new Failure(w.currentIndex, w.current.used(),
              "the case did not finish within 120 s of CPU time (cases normally take well under a second)"));
          hung = true;
        }
      }
    }
    if (harnessError.get() != null) throw new Exception("harness error", harnessError.get());
    for (Worker w : ws) total.merge(w.counters);
    Failure f = failure.get();
    if (f == null) return null;
    if (!hung) shrink(f);
    else f.description = "(case not decoded: it does not terminate)";
    return f;
  }

  /** Runs one tape; returns the violation message or null. Fills f when given. */
  private String attempt(long[] tape, Failure f) {
    Src src = new Src(tape);
    Case c = new Case(src, null);
    try {
      test(c);
      return null;
    } catch (Violation v) {
      if (f != null) {
        f.tape = src.used();
        f.message = v.getMessage();
        try {
          f.description = c.description();
        } catch (RuntimeException e) {
          f.description = "(description failed: " + e + ")";
        }
      }
      return v.getMessage();
    }
  }

  private void shrink(Failure f) {
    Throwable[] err = new Throwable[1];
    Thread t = new Thread(null, () -> {
      try {
        shrink0(f);
      } catch (Throwable x) {
        err[0] = x;
      }
    }, "shrink", 1L << 20);
    t.setDaemon(true);
    t.start();
    try {
      t.join(120_000); // a bound on the effort spent on shrinking, not on the verdict
    } catch (InterruptedException e) {
      Thread.currentThread().interrupt();
    }
    if (f.description == null) f.description = "(not shrunk)";
    if (err[0] != null) f.description += " (shrinking stopped: " + err[0] + ")";
  }

  private static long[] cut(long[] a, int from, int to) {
    long[] r = new long[a.length - (to - from)];
    System.arraycopy(a, 0, r, 0, from);
    System.arraycopy(a, to, r, from, a.length - to);
    return r;
  }

  private static boolean simpler(long[] a, long[] b) {
    if (a.length != b.length) return a.length < b.length;
    for (int i = 0; i < a.length; i++) {
      int c = Long.compareUnsigned(a[i], b[i]);
      if (c != 0) return c < 0;
    }
    return false;
  }

  private int budget = 6000;

  private boolean improve(long[] candidate, Failure f) {
    if (budget-- <= 0) return false;
    Failure g = new Failure(f.index, candidate, null);
    if (attempt(candidate, g) == null) return false;
    if (!simpler(g.tape, f.tape)) return false;
    f.tape = g.tape;
    f.message = g.message;
    f.description = g.description;
    f.shrinkSteps++;
    return true;
  }

  private void shrink0(Failure f) {
    if (attempt(f.tape, f) == null) {
      f.description = "(the violation did not repeat on re-execution of the same tape)";
      return;
    }
    boolean progress = true;
    while (progress && budget > 0) {
      progress = false;
      for (int size = Math.max(1, f.tape.length / 2); size >= 1 && budget > 0; size = size / 2) {
        for (int i = f.tape.length - size; i >= 0 && budget > 0; i--) {
          if (i + size > f.tape.length) continue;
          if (improve(cut(f.tape, i, i + size), f)) progress = true;
        }
      }
      for (int size = 8; size >= 1 && budget > 0; size = size / 2) {
        for (int i = 0; i + size <= f.tape.length && budget > 0; i += size) {
          boolean zero = true;
          for (int k = i; k < i + size; k++) zero &= f.tape[k] == 0;
          if (zero) continue;
          long[] x = f.tape.clone();
          for (int k = i; k < i + size; k++) x[k] = 0;
          if (improve(x, f)) progress = true;
        }
      }
      for (int i = 0; i < f.tape.length && budget > 0; i++) {
        long lo = 0;
        while (i < f.tape.length && Long.compareUnsigned(lo, f.tape[i]) < 0 && budget > 0) {
          long hi = f.tape[i];
          long mid = lo + Long.divideUnsigned(hi - lo, 2);
          if (mid == hi) break;
          long[] x = f.tape.clone();
          x[i] = mid;
          if (improve(x, f)) progress = true;
          else lo = mid + 1;
        }
      }
    }
  }

  Failure replay(long[] tape) {
    Failure f = new Failure(0, tape, null);
    return attempt(tape, f) == null ? null : f;
  }
}
