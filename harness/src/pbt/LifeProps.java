package pbt;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.IOException;
import java.io.StringWriter;
import java.lang.ref.WeakReference;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.CharBuffer;
import java.time.Instant;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Calendar;
import java.util.Collections;
import java.util.Date;
import java.util.GregorianCalendar;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TimeZone;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicReference;

/** C31 and C32: arguments that change, and what stays reachable after a call. */
final class LifeProps {
  private LifeProps() {}

  // ------------------------------------------------------------------ C31

  /** Text that can be exchanged. */
  private static final class MutableText implements CharSequence {
    String s;

    MutableText(String s) {
      this.s = s;
    }

    @Override
    public int length() {
      return s.length();
    }

    @Override
    public char charAt(int i) {
      return s.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return s.subSequence(a, b);
    }

    @Override
    public String toString() {
      return s;
    }
  }

  /** A number that can be exchanged. */
  private static final class MutableNumber extends Number {
    long v;

    MutableNumber(long v) {
      this.v = v;
    }

    @Override
    public int intValue() {
      return (int) v;
    }

    @Override
    public long longValue() {
      return v;
    }

    @Override
    public float floatValue() {
      return v;
    }

    @Override
    public double doubleValue() {
      return v / 4.0;
    }

    @Override
    public String toString() {
      return "n" + v;
    }
  }

  private static final class MutableObject {
    String s;

    MutableObject(String s) {
      this.s = s;
    }

    @Override
    public String toString() {
      return s;
    }
  }

  /** Its own text is constant, but asking for it changes another argument. */
  private static final class Trigger {
    Runnable change;

    @Override
    public String toString() {
      if (change != null) change.run();
      return "trigger";
    }
  }

  static final class Changing extends Prop {
    Changing() {
      super("C31");
    }

    @Override
    String rule() {
      return "programs over mutable arguments (builders, buffers, arrays, lists, maps, atomic and user-defined numbers, dates, "
          + "calendars, user-defined text and objects, also as * width and precision) are built in every way and formatted several times, "
          + "with generated changes of the arguments in between, sometimes from within the string conversion of another argument; every output must be the "
          + "model's text for the arguments' state at that moment, earlier outputs must stay as they were, and the argument list must report the identical objects; "
          + "non-trivial when a change alters the expected text";
    }

    @Override
    int quickCases() {
      return 1000000;
    }

    private static long instantMillis(Src s) {
      return s.choose(4102444800000L);
    }

    /** A mutable value together with conversions that accept it in all its states. */
    private static Object cell(Src s, String[] convs) {
      int n = s.chance(1, 12) ? s.range(7, s.chance(1, 10) ? 2000 : 70) : s.range(1, 6);
      switch (s.below(17)) {
        case 0:
          convs[0] = "sSc";
          return new StringBuilder(nonEmpty(s));
        case 1:
          convs[0] = "sSc";
          return new StringBuffer(nonEmpty(s));
        case 2:
          convs[0] = "sSc";
          return CharBuffer.wrap(nonEmpty(s).toCharArray());
        case 3:
          convs[0] = "sSc";
          return new MutableText(nonEmpty(s));
        case 4:
          convs[0] = "diuoxXfFeEgGsS";
          return new StringBuilder(Long.toString(s.choose(1000000)));
        case 5:
          convs[0] = "sS";
          return nonEmpty(s).toCharArray();
        case 6:
          convs[0] = "sS";
          return new int[n];
        case 7:
          convs[0] = "sS";
          return new byte[n];
        case 8: {
          convs[0] = "sS";
          Object[] a = new Object[n];
          for (int i = 0; i < n; i++) a[i] = s.pick("x", i, null, "");
          return a;
        }
        case 9:
          convs[0] = "sS";
          List<Object> l = s.bool() ? new ArrayList<>() : s.bool() ? new java.util.LinkedList<>() : new java.util.Vector<>();
          for (int i = 0; i < n; i++) l.add(i == 1 ? "two" : i);
          return l;
        case 10:
          convs[0] = "sS";
          Map<Object, Object> m = s.bool() ? new LinkedHashMap<>() : s.bool() ? new java.util.TreeMap<>() : new java.util.HashMap<>();
          for (int i = 0; i < n; i++) m.put("k" + 3 * i, i);
          return m;
        case 11:
          convs[0] = "diuoxXfFeEgGaAcsS";
          return new AtomicInteger(s.range(0, 100));
        case 12:
          convs[0] = "diuoxXfFeEgGaAcsS";
          return new AtomicLong(s.choose(100000));
        case 13:
          convs[0] = "diuoxXfFeEgGaAcsS";
          return new MutableNumber(s.choose(100000));
        case 14:
          convs[0] = "diuoxXfFeEgGsStT";
          return s.bool() ? new Date(instantMillis(s)) : new java.sql.Timestamp(instantMillis(s));
        case 15: {
          convs[0] = "diuoxXfFeEgGtT";
          Calendar c = new GregorianCalendar(TimeZone.getTimeZone("UTC"));
          c.setTimeInMillis(instantMillis(s));
          return c;
        }
        default:
          convs[0] = "sS";
          return s.bool() ? new MutableObject(G.text(s)) : new AtomicReference<Object>("r");
      }
    }

    private static String textOf(Program p, int from, int to, Trigger t) {
      Runnable change = t == null ? null : t.change;
      if (t != null) t.change = null;
      StringBuilder sb = new StringBuilder();
      for (int i = from; i < to; i++) sb.append(p.pieces.get(i).expect().text);
      if (t != null) t.change = change;
      return sb.toString();
    }

    private static Spec plainS() {
      return new Spec().withConv('s');
    }

    private static String nonEmpty(Src s) {
      String t = G.textOf(s, s.chance(1, 20) ? s.range(1, 300) : s.range(1, 10));
      return t.isEmpty() ? "q" : t;
    }

    private static void splice(Src s, StringBuilder b) {
      switch (s.below(5)) {
        case 0:
          b.append(nonEmpty(s));
          break;
        case 1:
          b.setCharAt(s.below(b.length()), (char) s.range('a', 'z'));
          break;
        case 2:
          b.insert(s.below(b.length() + 1), nonEmpty(s));
          break;
        case 3:
          b.setLength(s.range(1, b.length()));
          break;
        default:
          b.setLength(0);
          b.append(nonEmpty(s));
      }
    }

    /** A change of the value, decided now and made when run. */
    @SuppressWarnings("unchecked")
    private static Runnable change(Src s, Object o) {
      if (o instanceof StringBuilder || o instanceof StringBuffer) {
        String old = o.toString();
        boolean digits = true;
        for (int i = 0; i < old.length(); i++) digits &= old.charAt(i) >= '0' && old.charAt(i) <= '9';
        StringBuilder b = new StringBuilder(old);
        if (digits && old.length() < 8) {
          b.setLength(0);
          b.append(s.choose(1000000));
        } else splice(s, b);
        String t = b.toString();
        return () -> {
          if (o instanceof StringBuilder) {
            ((StringBuilder) o).setLength(0);
            ((StringBuilder) o).append(t);
          } else {
            ((StringBuffer) o).setLength(0);
            ((StringBuffer) o).append(t);
          }
        };
      }
      if (o instanceof CharBuffer) {
        CharBuffer b = (CharBuffer) o;
        int i = s.below(b.length());
        char ch = (char) s.range('a', 'z');
        boolean shorter = s.bool() && b.length() > 1;
        return () -> {
          b.put(b.position() + i, ch);
          if (shorter) ((java.nio.Buffer) b).position(b.position() + 1);
        };
      }
      if (o instanceof MutableText) {
        String t = nonEmpty(s);
        return () -> ((MutableText) o).s = t;
      }
      if (o instanceof MutableObject) {
        String t = G.text(s);
        return () -> ((MutableObject) o).s = t;
      }
      if (o instanceof char[]) {
        int i = s.below(((char[]) o).length);
        char ch = (char) s.range('a', 'z');
        return () -> ((char[]) o)[i] = ch;
      }
      if (o instanceof int[]) {
        int i = s.below(((int[]) o).length);
        int v = (int) G.anyLong(s);
        return () -> ((int[]) o)[i] = v;
      }
      if (o instanceof byte[]) {
        int i = s.below(((byte[]) o).length);
        byte v = (byte) s.below(256);
        return () -> ((byte[]) o)[i] = v;
      }
      if (o instanceof Object[]) {
        int i = s.below(((Object[]) o).length);
        Object v = s.pick("y", 7, null, "longer");
        return () -> ((Object[]) o)[i] = v;
      }
      if (o instanceof List) {
        String t = G.text(s);
        boolean clear = s.bool();
        return () -> {
          if (clear) ((List<Object>) o).clear();
          ((List<Object>) o).add(t);
        };
      }
      if (o instanceof Map) {
        int k = s.range(0, 9);
        return () -> ((Map<Object, Object>) o).put("k" + k, k);
      }
      if (o instanceof AtomicInteger) {
        int v = s.range(0, 1000);
        return () -> ((AtomicInteger) o).set(v);
      }
      if (o instanceof AtomicLong) {
        long v = s.choose(1000000);
        return () -> ((AtomicLong) o).set(v);
      }
      if (o instanceof MutableNumber) {
        long v = s.choose(1000000);
        return () -> ((MutableNumber) o).v = v;
      }
      if (o instanceof Date) {
        long v = instantMillis(s);
        return () -> ((Date) o).setTime(v);
      }
      if (o instanceof Calendar) {
        long v = instantMillis(s);
        return () -> ((Calendar) o).setTimeInMillis(v);
      }
      String t = G.text(s);
      return () -> ((AtomicReference<Object>) o).set(t);
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      Program p = new Program();
      List<Object> cells = new ArrayList<>();
      Trigger trigger = s.chance(1, 4) ? new Trigger() : null;
      int n = s.range(1, 4);
      int at = trigger != null ? s.below(n) : -1;
      int before = 0; // pieces up to and including the trigger
      for (int i = 0; i < n; i++) {
        if (i == at) {
          p.add(Program.conv(plainS(), Arg.of(trigger)));
          before = p.pieces.size();
        }
        if (s.bool()) p.add(Program.literal(s.pick("|", " and ", "100%")));
        String[] convs = new String[1];
        Object o = cells.isEmpty() || s.chance(7, 8) ? cell(s, convs) : null;
        if (o == null) { // the same object once more
          o = cells.get(s.below(cells.size()));
          convs[0] = o instanceof Calendar ? "d" : "s";
        }
        Spec sp = G.spec(s, s.pickChar(convs[0]));
        if (sp.lowerConv() == 't' && s.bool()) sp.datePattern = G.datePattern(s);
        Program.Piece x = Program.conv(sp, Arg.of(o));
        if (s.chance(1, 6)) {
          AtomicInteger w = new AtomicInteger(s.range(0, 20));
          x.starWidth = Arg.of(w);
          cells.add(w);
        }
        if (s.chance(1, 6)) {
          AtomicInteger w = new AtomicInteger(s.range(0, 20));
          x.starPrec = Arg.of(w);
          cells.add(w);
        }
        p.add(x);
        cells.add(o);
      }
      String f = p.format();
      List<Arg> as = p.args();
      c.key(f);
      for (Arg a : as) c.key(a.keyText());
      FastPrintf fp = FastPrintf.compile(f);
      if (s.bool()) fp = fp.enableThreadLocalCache();
      Object[] values = new Object[as.size()];
      for (int i = 0; i < values.length; i++) values[i] = as.get(i).value;
      Args args;
      switch (s.below(4)) {
        case 0:
          args = Args.of(values);
          break;
        case 1:
          args = Args.of(Arrays.asList(values));
          break;
        case 2:
          args = Args.createWithExpectedSize(values.length);
          for (Arg a : as) a.putTyped(args);
          break;
        default:
          args = Arg.args(as);
      }
      String first = textOf(p, 0, p.pieces.size(), trigger);
      boolean altered = false;
      int rounds = s.range(1, 4);
      List<String> outs = new ArrayList<>();
      List<String> copies = new ArrayList<>();
      StringBuilder log = new StringBuilder();
      c.describe(() -> Show.of(f) + " " + log);
      for (int r = 0; r < rounds; r++) {
        for (int k = s.below(3); k > 0; k--) {
          Object o = cells.get(s.below(cells.size()));
          change(s, o).run();
        }
        Runnable late = trigger != null && s.bool() ? change(s, cells.get(s.below(cells.size()))) : null;
        String exp;
        int way = s.below(4);
        if (trigger != null) trigger.change = late;
        Args now = args;
        FastPrintf g = fp;
        // pieces before the trigger show the state before its change, those after it the state afterwards
        String head = textOf(p, 0, before, trigger);
        Out o = Out.of(() -> {
          if (way == 0) return g.format(new StringBuilder(), now).toString();
          if (way == 1) return g.format(new StringWriter(), now).toString();
          if (way == 2) {
            Sinks.Plain sink = new Sinks.Plain(null);
            g.format(sink, now);
            return sink.text().toString();
          }
          return g.format(now);
        });
        if (trigger != null) trigger.change = null;
        exp = head + textOf(p, before, p.pieces.size(), trigger);
        altered |= !exp.equals(first);
        log.append("; round ").append(r).append(late != null ? " (changed while formatting)" : "").append(": ").append(as);
        c.same(Out.text(exp), o, "output of " + Show.of(f) + " in round " + r + " for " + as);
        c.key(exp);
        outs.add((String) o.value);
        copies.add(new String(exp.toCharArray()));
        if (s.chance(1, 8)) {
          List<Object> vs = args.values();
          for (int i = 0; i < values.length; i++) {
            c.ok(vs.get(i) == values[i], "value " + i + " reported for " + Show.of(f) + " is another object");
          }
        }
      }
      for (int i = 0; i < outs.size(); i++) c.same(copies.get(i), outs.get(i), "output of round " + i + " after later changes");
      if (altered) c.nontrivial();
    }
  }

  // ------------------------------------------------------------------ C32

  static final class Retention extends Prop {
    Retention() {
      super("C32");
    }

    @Override
    String rule() {
      return "histories of calls of formatters that stay alive (cached or not, to strings and to destinations, calls that fail because of an argument's exception, a missing argument, an unfit argument or the destination, and syntax errors included) with "
          + "fresh argument objects, argument lists, destinations and long outputs; after dropping them and collecting garbage every one must have been collected, "
          + "and the heap must not have grown by more than 400 KB per formatter although outputs of up to 2 million characters were produced; "
          + "non-trivial when at least ten objects are tracked";
    }

    @Override
    int quickCases() {
      return 250;
    }

    @Override
    int thoroughFactor() {
      return 6;
    }

    @Override
    boolean singleThreaded() {
      return true;
    }

    @Override
    String[] assumptions() {
      return new String[] {"an object counts as retained when eight full collections do not clear a weak reference to it"};
    }

    private static final class Throwing {
      @Override
      public String toString() {
        throw new Kinds.UserException("no text");
      }
    }

    private static int serial; // makes every argument's value new, so that a library-wide memo cannot have it already

    /** A fresh object nobody else refers to. */
    private static Object fresh(Src s, char conv) {
      int n = ++serial;
      switch (conv) {
        case 'd':
        case 'x':
          switch (s.below(5)) {
            case 0:
              return new BigInteger("123456789012345678901234567890").add(BigInteger.valueOf(n));
            case 1:
              return new AtomicLong(n);
            case 2:
              return new Kinds.Cs(Integer.toString(n));
            case 3:
              return new Date(1000L + n);
            default:
              return new BigDecimal(n + ".5");
          }
        case 'f':
        case 'e':
        case 'g':
          switch (s.below(4)) {
            case 0:
              return new BigDecimal("12345678901234567890.5" + n);
            case 1:
              return new Kinds.Num(1, n + 0.5, 3);
            case 2:
              return new StringBuilder().append(n + 0.5);
            default:
              return new BigInteger("123456789012345678901234567890").add(BigInteger.valueOf(n));
          }
        case 't':
          switch (s.below(4)) {
            case 0:
              return new Date(86400000L * 365 + n);
            case 1:
              return Instant.ofEpochSecond(123456789, n);
            case 2:
              return new GregorianCalendar(1900 + n % 1000, 1, 2);
            default:
              return java.time.LocalDateTime.of(2001, 2, 3, 4, 5, 6, n);
          }
        default: {
          StringBuilder text = new StringBuilder();
          for (int k = s.pickInt(1, 9, 40, 100, 1000, 20000); k > 0; k--) text.append('t');
          text.append(n);
          switch (s.below(8)) {
            case 0:
            case 1:
              return text.toString();
            case 2:
              return text;
            case 3:
              return new Kinds.Cs(text.toString());
            case 4:
              return new Kinds.Obj(text.toString());
            case 5:
              return new int[] {1, 2, n};
            case 6:
              return text.toString().toCharArray();
            default:
              return new ArrayList<Object>(Arrays.asList("a", n));
          }
        }
      }
    }

    private static final Runtime RT = Runtime.getRuntime();

    /** What one history leaves behind. */
    private static final class Trace {
      final List<FastPrintf> live = new ArrayList<>();
      final List<WeakReference<Object>> refs = new ArrayList<>();
      final List<String> names = new ArrayList<>();
      final StringBuilder log = new StringBuilder();
      boolean large;

      void track(Object o, String name) {
        refs.add(new WeakReference<>(o));
        names.add(name);
      }

      /** Index of an object that is still reachable, or -1. */
      int left() {
        int r = -1;
        for (int i = 0; i < refs.size(); i++) if (refs.get(i).get() != null) r = i;
        return r;
      }
    }

    /** The thread that makes all calls. It stays alive, but no frame of a history is left on it. */
    private static final class Caller extends Thread {
      private Runnable task;
      private Throwable error;
      private boolean done;

      Caller() {
        super(null, null, "caller", 1L << 20);
        setDaemon(true);
        start();
      }

      @Override
      public synchronized void run() {
        try {
          while (true) {
            while (task == null) wait();
            step();
            done = true;
            notifyAll();
          }
        } catch (InterruptedException e) {
          return;
        }
      }

      private void step() {
        try {
          task.run();
        } catch (Throwable t) {
          error = t;
        }
        task = null;
        flush();
      }

      /** Other exceptions and calls take the place of the last ones in the runtime's own structures. */
      private void flush() {
        for (int i = 0; i < 3; i++) {
          try {
            Integer.parseInt("x" + i);
          } catch (NumberFormatException e) {
            if (e.getMessage() == null) return;
          }
        }
      }

      synchronized void call(Runnable r) {
        task = r;
        done = false;
        error = null;
        notifyAll();
        try {
          while (!done) wait();
        } catch (InterruptedException e) {
          throw new IllegalStateException(e);
        }
        Throwable t = error;
        error = null;
        if (t instanceof Error) throw (Error) t;
        if (t != null) throw (RuntimeException) t;
      }
    }

    private static void call(Src s, FastPrintf g, String convs, Trace tr, int fail, int large, boolean string) {
      Object[] vs = new Object[convs.length() + 1];
      for (int i = 0; i < convs.length(); i++) {
        vs[i] = fresh(s, convs.charAt(i));
        tr.track(vs[i], "argument " + vs[i].getClass().getSimpleName() + " of %" + convs.charAt(i));
      }
      if (fail == WRONG) {
        for (int i = 0; i < convs.length(); i++) {
          if ("dxfeg".indexOf(convs.charAt(i)) < 0) continue;
          vs[i] = new Kinds.Plain();
          tr.track(vs[i], "refused argument of %" + convs.charAt(i));
          break;
        }
      }
      if (fail == THROWING) vs[convs.length()] = new Throwing();
      else if (large > 0) {
        char[] cs = new char[large];
        Arrays.fill(cs, s.bool() ? '\u4e00' : 'l');
        vs[convs.length()] = s.bool() ? CharBuffer.wrap(cs) : new String(cs);
      } else vs[convs.length()] = new String(new char[] {'z'});
      tr.track(vs[convs.length()], "last argument " + (fail > 0 ? "(failing)" : large > 0 ? "(" + large + " characters)" : "(short)"));
      if (fail == MISSING) vs = Arrays.copyOf(vs, s.below(vs.length));
      Args args = s.bool() ? Args.of(vs) : Args.of(Arrays.asList(vs));
      tr.track(args, "argument list");
      int way = fail == SINK ? 3 : string ? 0 : s.below(4);
      Object dest = way == 1 ? new StringBuilder() : way == 2 ? new StringWriter() : way == 3 ? new Sinks.Plain(null) : null;
      if (fail == SINK) dest = new Closed();
      if (dest != null) tr.track(dest, "destination " + dest.getClass().getSimpleName());
      try {
        if (way == 0) tr.track(g.format(args), "result");
        else if (way == 1) g.format((StringBuilder) dest, args);
        else if (way == 2) g.format((StringWriter) dest, args);
        else g.format((Appendable) dest, args);
      } catch (RuntimeException e) {
        if (fail == 0) throw e;
      }
    }

    private static final int THROWING = 1;
    private static final int MISSING = 2;
    private static final int SINK = 3;
    private static final int WRONG = 4;

    private static final class Closed implements Appendable {
      @Override
      public Appendable append(CharSequence cs) throws IOException {
        throw new IOException("closed");
      }

      @Override
      public Appendable append(CharSequence cs, int a, int b) throws IOException {
        throw new IOException("closed");
      }

      @Override
      public Appendable append(char c) throws IOException {
        throw new IOException("closed");
      }
    }

    private static void refuse(String f, Trace tr) {
      String bad = new String(f.toCharArray());
      tr.track(bad, "rejected format");
      try {
        FastPrintf.compile(bad);
      } catch (RuntimeException e) {
        tr.log.append(" rejected");
      }
    }

    private static void history(Src s, Trace tr) {
      int formatters = s.range(1, 8);
      boolean heavy = s.chance(1, 3); // every formatter ends with a long output and a single short one
      List<String> shapes = new ArrayList<>();
      for (int i = 0; i < formatters; i++) {
        StringBuilder f = new StringBuilder();
        StringBuilder convs = new StringBuilder();
        for (int k = s.range(0, 4); k > 0; k--) {
          char ch = s.pickChar("dxfegtsp");
          convs.append(ch);
          f.append('%').append(s.pick("", "5", "-12", "20"));
          f.append(ch);
          if (ch == 't') f.append(s.pick("{yyyy}", "{HH:mm}", "{yyyy-MM-dd}"));
        }
        f.append("|%s");
        FastPrintf g = FastPrintf.compile(f.toString());
        int cap = s.chance(1, 4) ? s.pickInt(1, 100, 5000) : 0;
        if (cap > 0) g = g.setStringBuilderInitialCapacity(cap);
        boolean cached = s.chance(3, 4);
        if (cached) g = g.enableThreadLocalCache();
        int calls = s.range(1, 5);
        tr.log.append(i > 0 ? "; " : "").append(f).append(cap > 0 ? " capacity " + cap : "").append(cached ? " cached" : "");
        for (int k = 0; k < calls; k++) {
          boolean last = heavy && k == calls - 1;
          int fail = !last && s.chance(1, 4) ? s.range(1, 4) : 0;
          int large = last ? s.pickInt(1000000, 2000000) : fail == 0 && s.chance(1, 3) ? s.pickInt(1000, 65536, 70000, 300000, 2000000) : 0;
          call(s, g, convs.toString(), tr, fail, large, last);
          tr.log.append(fail > 0 ? " fail" + fail : large > 0 ? " " + large : " short");
          tr.large |= large >= 70000;
        }
        if (s.chance(1, 4)) refuse(f + "%.", tr);
        // a final short call through the string-returning method, after which a long buffer must be gone
        g.format(lastArgs(convs.toString()));
        tr.live.add(g);
        shapes.add(convs.toString());
      }
      // further calls whose objects are the last ones the formatters saw
      for (int k = s.below(4); k > 0; k--) {
        int i = s.below(shapes.size());
        int fail = s.chance(1, 2) ? s.range(1, 4) : 0;
        call(s, tr.live.get(i), shapes.get(i), tr, fail, 0, false);
        tr.log.append("; then ").append(i).append(fail > 0 ? " fail" + fail : " short");
      }
    }

    private static long used() {
      return RT.totalMemory() - RT.freeMemory();
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      String first = attempt(c, s);
      if (first == null) return;
      // the same history once more: what is retained for good is retained again
      String again = attempt(null, new Src(s.used()));
      if (again != null) c.fail(again);
    }

    private String attempt(Case c, Src s) {
      REACHABLE = null;
      System.gc();
      System.gc();
      long before = used();
      Trace tr = new Trace();
      Caller caller = new Caller(); // its thread-local data are new, too
      caller.call(() -> history(s, tr));
      if (c != null) {
        String text = tr.log.toString();
        c.describe(() -> text);
        c.key(text);
        if (tr.refs.size() >= 10) c.nontrivial();
        if (tr.large) c.label("after long outputs");
        c.checks += tr.refs.size() + 1;
      }
      REACHABLE = tr.live;
      try {
        return leftovers(tr, caller, before);
      } finally {
        caller.interrupt();
      }
    }

    private static String leftovers(Trace tr, Caller caller, long before) {
      int left = 0;
      for (int k = 0; k < 8 && left >= 0; k++) {
        if (k > 2) caller.call(() -> {});
        System.gc();
        left = tr.left();
      }
      if (left >= 0) return "after the calls the " + tr.names.get(left) + " is still reachable; formatters: " + tr.log;
      long grown = used() - before;
      long allowed = 600000 + 400000L * tr.live.size();
      for (int k = 0; k < 5 && grown > allowed; k++) {
        System.gc();
        grown = used() - before;
      }
      if (grown > allowed) return tr.live.size() + " formatters keep " + grown + " bytes after short outputs; formatters: " + tr.log;
      return null;
    }

    private static Args lastArgs(String convs) {
      Object[] vs = new Object[convs.length() + 1];
      for (int i = 0; i < convs.length(); i++) vs[i] = convs.charAt(i) == 't' ? (Object) new Date(0) : convs.charAt(i) == 's' ? "" : convs.charAt(i) == 'p' ? null : (Object) 1;
      vs[convs.length()] = "end";
      return Args.of(vs);
    }

    static volatile Object REACHABLE;
  }
}
