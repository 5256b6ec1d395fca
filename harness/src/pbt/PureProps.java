package pbt;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.IOException;
import java.io.OutputStream;
import java.io.PrintStream;
import java.io.Writer;
import java.nio.Buffer;
import java.nio.CharBuffer;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Calendar;
import java.util.Date;
import java.util.GregorianCalendar;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.TimeZone;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** C37: formatting changes nothing but its destination. */
final class PureProps extends Prop {

  PureProps() {
    super("C37");
  }

  @Override
  String rule() {
    return "a generated program over mutable arguments of 14 kinds, sometimes with a refused or throwing argument or a failing destination, is formatted into strings, builders and destinations that can be "
        + "flushed and closed, by threads with and without a pending interrupt; afterwards every argument, the list and its source, the thread, the default locale and zone, the system properties and the standard streams "
        + "must be as before, and the destination only appended to; non-trivial when a mutable argument is shown";
  }

  @Override
  int quickCases() {
    return 500000;
  }

  // ---------------------------------------------------------------- surroundings

  private static final ThreadLocal<int[]> PRINTED = new ThreadLocal<>();

  private static final class Watch extends OutputStream {
    final OutputStream to;

    Watch(OutputStream to) {
      this.to = to;
    }

    @Override
    public void write(int b) throws IOException {
      seen();
      to.write(b);
    }

    @Override
    public void write(byte[] b, int off, int len) throws IOException {
      seen();
      to.write(b, off, len);
    }

    @Override
    public void flush() throws IOException {
      to.flush();
    }

    private static void seen() {
      int[] n = PRINTED.get();
      if (n != null) n[0]++;
    }
  }

  private static boolean watching;

  private static synchronized void watch() {
    if (watching) return;
    watching = true;
    System.setOut(new PrintStream(new Watch(System.out), true));
    System.setErr(new PrintStream(new Watch(System.err), true));
  }

  /** What the calling thread can see of its surroundings. */
  private static List<Object> surroundings(boolean all) {
    Thread t = Thread.currentThread();
    List<Object> r = new ArrayList<>(Arrays.asList(t.isInterrupted(), t.getName(), t.getPriority(), t.getContextClassLoader(), t.getUncaughtExceptionHandler(),
        Locale.getDefault(), Locale.getDefault(Locale.Category.FORMAT), TimeZone.getDefault(), System.out, System.err, System.in));
    if (all) r.add(new LinkedHashMap<>(System.getProperties()));
    return r;
  }

  // ---------------------------------------------------------------- arguments

  /** Can be appended to, flushed and closed, and remembers it. */
  private static final class Door extends Writer {
    final StringBuilder text = new StringBuilder();
    int others;
    int left;

    Door(int left) {
      this.left = left;
    }

    private void use() throws IOException {
      if (left-- == 0) throw new IOException("full");
    }

    @Override
    public void write(char[] b, int off, int len) throws IOException {
      use();
      text.append(b, off, len);
    }

    @Override
    public void flush() {
      others++;
    }

    @Override
    public void close() {
      others++;
    }
  }

  /** Fails when the library asks for its text. */
  private static final class Failing {
    @Override
    public String toString() {
      if (PRINTED.get() != null) throw new Kinds.UserException("own");
      return "failing";
    }
  }

  private static Object mutable(Src s) {
    String t = G.textOf(s, s.range(1, 12));
    switch (s.below(14)) {
      case 0:
        return new StringBuilder(s.range(0, 40)).append(t);
      case 1:
        return new StringBuffer(s.range(0, 40)).append(t);
      case 2: {
        CharBuffer b = CharBuffer.wrap(("<" + t + ">").toCharArray());
        int from = s.range(0, t.length());
        ((Buffer) b).limit(s.range(from + 1, t.length() + 2));
        ((Buffer) b).position(from);
        ((Buffer) b).mark();
        return b;
      }
      case 3:
        return t.toCharArray();
      case 4:
        return new int[] {s.range(-9, 9), 3, 1, 2};
      case 5:
        return new Object[] {"b", t, null, 7, 'c'};
      case 6:
        return new byte[] {3, (byte) s.below(256), 1};
      case 7:
        return new ArrayList<Object>(Arrays.asList("z", t, 1, null));
      case 8: {
        Map<Object, Object> m = new LinkedHashMap<>();
        m.put("z", t);
        m.put(1, null);
        return m;
      }
      case 9:
        return new Date(s.range(-1000000000, 1000000000) * 1999L);
      case 10: {
        GregorianCalendar g = new GregorianCalendar(TimeZone.getTimeZone(s.pick("UTC", "Asia/Tokyo", "America/New_York")), Locale.ROOT);
        g.setTimeInMillis(s.range(-1000000000, 1000000000) * 1999L);
        g.setFirstDayOfWeek(1 + s.below(7));
        g.setLenient(s.bool());
        return g;
      }
      case 11:
        return new AtomicInteger(s.range(-100, 100000));
      case 12:
        return new AtomicLong(G.anyLong(s));
      default:
        return new double[] {2.5, -0.0, s.below(10)};
    }
  }

  private static List<Object> state(Object o) {
    List<Object> r = new ArrayList<>();
    r.add(o == null ? null : o.getClass());
    if (o instanceof StringBuilder) r.add(o.toString() + ((StringBuilder) o).capacity());
    else if (o instanceof StringBuffer) r.add(o.toString() + ((StringBuffer) o).capacity());
    else if (o instanceof CharBuffer) {
      CharBuffer b = ((CharBuffer) o).duplicate();
      r.addAll(Arrays.asList(b.position(), b.limit(), b.capacity()));
      try {
        ((Buffer) b).reset();
        r.add(b.position());
      } catch (java.nio.InvalidMarkException e) {
        r.add("no mark");
      }
      ((Buffer) b).clear();
      r.add(b.toString());
    } else if (o instanceof Object[]) r.addAll(Arrays.asList((Object[]) o));
    else if (o instanceof char[]) r.add(new String((char[]) o));
    else if (o instanceof int[]) r.add(Arrays.toString((int[]) o));
    else if (o instanceof byte[]) r.add(Arrays.toString((byte[]) o));
    else if (o instanceof double[]) r.add(Arrays.toString((double[]) o));
    else if (o instanceof ArrayList) r.addAll((List<?>) o);
    else if (o instanceof LinkedHashMap) r.add(o.toString());
    else if (o instanceof Date) r.add(((Date) o).getTime());
    else if (o instanceof Calendar) {
      Calendar g = (Calendar) ((Calendar) o).clone();
      r.addAll(Arrays.asList(g.getTimeZone(), g.getFirstDayOfWeek(), g.isLenient(), g.getMinimalDaysInFirstWeek(), g.getTimeInMillis()));
    } else if (o instanceof AtomicInteger || o instanceof AtomicLong) r.add(((Number) o).longValue());
    return r;
  }

  private static boolean same(List<Object> a, List<Object> b) {
    if (a.size() != b.size()) return false;
    for (int i = 0; i < a.size(); i++) if (a.get(i) != b.get(i) && (a.get(i) == null || !a.get(i).equals(b.get(i)))) return false;
    return true;
  }

  // ---------------------------------------------------------------- test

  @Override
  void test(Case c) {
    watch();
    Src s = c.src;
    Program p = new Program();
    boolean shown = false;
    for (int k = s.range(1, 5); k > 0; k--) {
      switch (s.below(3)) {
        case 0:
          p.add(Program.goodPiece(s, G.CONVS, 1, 5));
          break;
        default: {
          Object o = mutable(s);
          boolean num = o instanceof Number;
          boolean time = o instanceof Date || o instanceof Calendar;
          Spec sp = G.spec(s, num && s.bool() ? s.pickChar("duxofga") : time && s.bool() ? s.pickChar("tTdf") : s.pickChar("sSsScp"));
          if (sp.lowerConv() == 't' && s.bool()) sp.datePattern = G.datePattern(s);
          p.add(Program.conv(sp, Arg.of(o)));
          shown = true;
        }
      }
    }
    int ok = p.failing();
    String exp = p.text(ok);
    boolean fine = ok == p.pieces.size() && !s.chance(1, 8);
    if (ok == p.pieces.size() && !fine) p.add(Program.conv(Grammar.spec("%s"), Arg.of(new Failing())));
    p.key(c);
    c.describe(p::show);
    if (shown) c.nontrivial();
    List<Object> raw = new ArrayList<>();
    for (Arg a : p.args()) raw.add(a.value);
    List<List<Object>> before = new ArrayList<>();
    for (Object o : raw) before.add(state(o));
    List<Object> source = new ArrayList<>(raw);
    Object[] array = raw.toArray();
    String what = p.show();
    boolean pending = s.bool();
    boolean all = s.chance(1, 40);
    int way = s.below(6);
    Door door = new Door(s.chance(1, 6) ? s.below(4) : Integer.MAX_VALUE);
    StringBuilder sb = new StringBuilder("prior");
    if (pending) Thread.currentThread().interrupt();
    int[] printed = {0};
    List<Object> around = surroundings(all);
    PRINTED.set(printed);
    Out o;
    List<Object> afterwards;
    Args[] list = {null};
    try {
      if (s.chance(1, 20)) Out.of(() -> FastPrintf.compile(p.format() + s.pick("%", "%q", "%5", "%t{", "%99999d")));
      o = Out.of(() -> {
        FastPrintf fp = FastPrintf.compile(p.format());
        if (way % 2 == 0) fp = fp.enableThreadLocalCache();
        if (way == 1) return fp.format(array);
        Args args = way == 5 ? Args.of(array) : way == 4 ? Args.of((Iterable<?>) source) : Arg.args(p.args());
        list[0] = args;
        if (way == 0) return fp.format(args);
        if (way == 2) return fp.format(sb, args).substring(5);
        return fp.format(door, args).text.toString();
      });
      afterwards = surroundings(all);
    } finally {
      PRINTED.remove();
      Thread.interrupted();
    }
    if (fine && !(way >= 3 && door.left < 1000)) c.same(Out.text(exp), o, what);
    else if (o.ok() && !fine) c.fail(what + " gave " + o + " instead of an error");
    if (!o.ok()) c.label("failed");
    if (way == 2) c.ok(sb.toString().equals("prior" + exp), "destination of " + what + ": " + Show.of(sb.toString()));
    if (way >= 3) {
      c.ok(door.others == 0, "the destination was flushed or closed by " + what);
      c.ok(exp.startsWith(door.text.toString()), "destination of " + what + ": " + Show.of(door.text.toString()));
    }
    c.ok(printed[0] == 0, "something was printed to a standard stream by " + what);
    c.ok(same(around, afterwards), "surroundings before " + around + ", after " + afterwards + " " + what);
    for (int i = 0; i < raw.size(); i++) {
      List<Object> x = state(raw.get(i));
      c.ok(same(before.get(i), x), "argument " + i + " was " + before.get(i) + ", is " + x + " after " + what);
    }
    c.ok(same(raw, source), "the collection the arguments came from changed: " + what);
    c.ok(same(raw, Arrays.asList(array)), "the array the arguments came from changed: " + what);
    if (list[0] != null) {
      List<Object> vs = new ArrayList<>(list[0].values());
      c.ok(vs.size() == raw.size(), "the argument list has " + vs.size() + " values after " + what);
      for (int i = 0; i < vs.size(); i++) c.ok(vs.get(i) == raw.get(i) || vs.get(i) != null && vs.get(i).equals(raw.get(i)), "argument " + i + " of the list changed: " + what);
    }
  }
}
