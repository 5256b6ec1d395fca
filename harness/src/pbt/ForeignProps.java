package pbt;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.number.FloatForm;
import io.fastprintf.number.IntForm;
import io.fastprintf.traits.FormatTraits;
import java.io.StringWriter;
import java.lang.reflect.InvocationHandler;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.lang.reflect.Proxy;
import java.util.ArrayList;
import java.util.Iterator;
import java.util.List;
import java.util.NoSuchElementException;
import java.util.Spliterators;
import java.util.function.Consumer;

/** C35: argument lists, arguments and numbers implemented outside the library. */
final class ForeignProps extends Prop {

  ForeignProps() {
    super("C35");
  }

  @Override
  String rule() {
    return "a generated program is formatted with argument lists of foreign classes (lazy, joined, walked once, with surplus, ending early, throwing from the iterator) "
        + "whose elements are the library's own, wrapped, or answer each kind of conversion with another value, to strings, builders and writers; text, exceptions and prefixes "
        + "are compared with the model, and the list must not be changed; non-trivial when there are at least two arguments";
  }

  @Override
  int quickCases() {
    return 1200000;
  }

  private static final class Own extends RuntimeException {
    private static final long serialVersionUID = 1;

    Own(String m) {
      super(m, null, false, false);
    }
  }

  private static FormatTraits traits(Arg a) {
    Args one = Args.create();
    return a.put(one).iterator().next();
  }

  private static Object call(Object target, Method m, Object[] args) throws Throwable {
    try {
      return m.invoke(target, args);
    } catch (InvocationTargetException e) {
      throw e.getCause();
    }
  }

  private static Object basic(Object proxy, Method m, Object[] args) {
    switch (m.getName()) {
      case "equals":
        return proxy == args[0];
      case "hashCode":
        return System.identityHashCode(proxy);
      default:
        return "foreign";
    }
  }

  /** An object that passes all calls on. */
  private static <T> T wrapped(Class<T> type, Object target) {
    InvocationHandler h = (proxy, m, args) -> m.getDeclaringClass() == Object.class ? basic(proxy, m, args) : call(target, m, args);
    return type.cast(Proxy.newProxyInstance(type.getClassLoader(), new Class<?>[] {type}, h));
  }

  private static int role(String method) {
    switch (method) {
      case "asIntForm":
        return 0;
      case "asFloatForm":
        return 1;
      case "asString":
      case "asSeq":
        return 2;
      case "asChar":
      case "asInt":
        return 3;
      case "asTemporalAccessor":
        return 4;
      default:
        return 5;
    }
  }

  private static int role(char conv) {
    switch (conv) {
      case 'f':
      case 'e':
      case 'g':
      case 'a':
        return 1;
      case 's':
        return 2;
      case 'c':
      case '*':
        return 3;
      case 't':
        return 4;
      case 'p':
        return 5;
      default:
        return 0;
    }
  }

  /** Answers for one kind of conversion with the argument, for all others with something else. */
  private static FormatTraits faces(int role, FormatTraits real, FormatTraits other, boolean wrapNumbers) {
    InvocationHandler h = (proxy, m, args) -> {
      if (m.getDeclaringClass() == Object.class) return basic(proxy, m, args);
      int r = role(m.getName());
      Object v = call(r == role || m.getName().equals("isNull") || r == 5 && role != 5 ? real : other, m, args);
      if (wrapNumbers && v instanceof IntForm) return wrapped(IntForm.class, v);
      if (wrapNumbers && v instanceof FloatForm) return wrapped(FloatForm.class, v);
      return v;
    };
    return (FormatTraits) Proxy.newProxyInstance(FormatTraits.class.getClassLoader(), new Class<?>[] {FormatTraits.class}, h);
  }

  private static FormatTraits throwing(RuntimeException e) {
    InvocationHandler h = (proxy, m, args) -> {
      if (m.getDeclaringClass() == Object.class) return basic(proxy, m, args);
      if (m.getName().equals("isNull")) return false;
      throw e;
    };
    return (FormatTraits) Proxy.newProxyInstance(FormatTraits.class.getClassLoader(), new Class<?>[] {FormatTraits.class}, h);
  }

  private interface Source {
    Iterator<FormatTraits> get();
  }

  /** A list that knows nothing but its iterator. */
  private static Args list(Source source, int[] changed) {
    InvocationHandler h = (proxy, m, args) -> {
      if (m.getDeclaringClass() == Object.class) return basic(proxy, m, args);
      switch (m.getName()) {
        case "iterator":
          return source.get();
        case "values": {
          List<Object> r = new ArrayList<>();
          for (Iterator<FormatTraits> it = source.get(); it.hasNext();) r.add(it.next().asObject());
          return r;
        }
        case "forEach":
          for (Iterator<FormatTraits> it = source.get(); it.hasNext();) {
            @SuppressWarnings("unchecked")
            Consumer<Object> to = (Consumer<Object>) args[0];
            to.accept(it.next());
          }
          return null;
        case "spliterator":
          return Spliterators.spliteratorUnknownSize(source.get(), 0);
        default:
          changed[0]++;
          throw new UnsupportedOperationException(m.getName());
      }
    };
    return (Args) Proxy.newProxyInstance(Args.class.getClassLoader(), new Class<?>[] {Args.class}, h);
  }

  private static final class Walk implements Iterator<FormatTraits> {
    private final List<FormatTraits> list;
    private final int stop; // where it throws, or -1
    private final boolean inHasNext;
    private final RuntimeException e;
    private final int[] changed;
    private int at;

    Walk(List<FormatTraits> list, int stop, boolean inHasNext, RuntimeException e, int[] changed) {
      this.list = list;
      this.stop = stop;
      this.inHasNext = inHasNext;
      this.e = e;
      this.changed = changed;
    }

    @Override
    public boolean hasNext() {
      if (at == stop && inHasNext) throw e;
      return at < list.size();
    }

    @Override
    public FormatTraits next() {
      if (at == stop) throw e;
      if (at >= list.size()) throw new NoSuchElementException("walked past the end");
      return list.get(at++);
    }

    @Override
    public void remove() {
      changed[0]++;
      throw new UnsupportedOperationException("remove");
    }
  }

  @Override
  void test(Case c) {
    Src s = c.src;
    Program p = s.chance(1, 300) ? Program.big(s, "dxfgscp", 1, 6) : Program.good(s, 6, s.chance(1, 4) ? "p" : "diuoxXfFeEgGaAcsStTp", 1, 5);
    List<FormatTraits> own = new ArrayList<>();
    int elements = s.below(4);
    boolean wrapNumbers = s.bool();
    StringBuilder how = new StringBuilder();
    FormatTraits other = traits(s.bool() ? Arg.of(42) : Arg.of(1234567890123L));
    for (Program.Piece x : p.pieces) {
      if (x.literal != null) continue;
      List<Arg> as = new ArrayList<>();
      x.args(as);
      for (int i = 0; i < as.size(); i++) {
        FormatTraits t = traits(as.get(i));
        int kind = elements == 3 ? s.below(3) : elements;
        boolean last = i == as.size() - 1;
        boolean isNull = as.get(i).value == null;
        if (kind == 1) t = wrapped(FormatTraits.class, t);
        else if (kind == 2 && !isNull) t = faces(role(last ? x.spec.lowerConv() : '*'), t, other, wrapNumbers);
        how.append(kind);
        own.add(t);
      }
    }
    int n = own.size();
    int form = s.below(7);
    int cut = n == 0 ? 0 : s.below(n);
    int[] changed = new int[1];
    Own thrown = new Own("own");
    boolean inHasNext = s.bool();
    Source source;
    boolean fails = false;
    boolean once = false;
    switch (form) {
      case 0:
        source = () -> new Walk(own, -1, false, null, changed);
        break;
      case 1: { // joined of two
        List<FormatTraits> a = own.subList(0, cut);
        List<FormatTraits> b = own.subList(cut, n);
        source = () -> {
          Iterator<FormatTraits> i = new Walk(a, -1, false, null, changed);
          Iterator<FormatTraits> j = new Walk(b, -1, false, null, changed);
          return new Iterator<FormatTraits>() {
            @Override
            public boolean hasNext() {
              return i.hasNext() || j.hasNext();
            }

            @Override
            public FormatTraits next() {
              return i.hasNext() ? i.next() : j.next();
            }
          };
        };
        break;
      }
      case 2: { // walked once
        boolean[] used = new boolean[1];
        once = true;
        source = () -> {
          if (used[0]) throw new IllegalStateException("walked already");
          used[0] = true;
          return new Walk(own, -1, false, null, changed);
        };
        break;
      }
      case 3: // surplus
        for (int k = s.range(1, 3); k > 0; k--) own.add(s.bool() ? throwing(thrown) : other);
        source = () -> new Walk(own, -1, false, null, changed);
        break;
      case 4: // ends early
        fails = n > 0;
        source = () -> new Walk(own.subList(0, cut), -1, false, null, changed);
        break;
      case 5: // throws
        fails = n > 0;
        source = () -> new Walk(own, n > 0 ? cut : -1, inHasNext, thrown, changed);
        break;
      default: // an argument throws
        fails = n > 0;
        if (n > 0) own.set(cut, throwing(thrown));
        source = () -> new Walk(own, -1, false, null, changed);
    }
    boolean fail = fails;
    Args list = list(source, changed);
    String f = p.format();
    FastPrintf fp = FastPrintf.compile(f);
    if (s.chance(1, 3)) fp = fp.enableThreadLocalCache();
    FastPrintf g = fp;
    p.key(c);
    c.key(form + how.toString() + cut);
    c.describe(() -> p.show() + ", list " + form + (fail ? " at " + cut : "") + ", elements " + how);
    if (n >= 2) c.nontrivial();
    c.label("list " + form);
    c.label("elements " + elements);
    String exp = p.text();
    int prefix = 0; // pieces before the one that fails
    if (fail) {
      for (int k = 0; prefix < p.pieces.size(); prefix++) {
        List<Arg> as = new ArrayList<>();
        p.pieces.get(prefix).args(as);
        k += as.size();
        if (k > cut) break;
      }
    }
    for (int round = once ? 2 : 0; round < 3; round++) {
      int dest = round == 2 ? s.below(3) : round;
      Appendable to = dest == 0 ? null : dest == 1 ? new StringBuilder("before ") : new StringWriter().append("before ");
      Out o = Out.of(() -> to == null ? g.format(list) : g.format(to, list));
      String what = p.show() + ", list " + form + ", elements " + how + ", destination " + dest;
      if (fail) {
        if (form == 4 ? !o.rejected() : o.error != thrown) {
          c.fail(what + " fails at argument " + cut + "\n  expected: " + (form == 4 ? "formatting exception" : thrown) + "\n  actual:   " + o);
        }
        c.checks++;
        if (to != null) {
          String got = to.toString();
          c.ok(got.startsWith("before ") && exp.startsWith(got.substring(7)) && got.length() <= 7 + p.text(prefix).length(), what + " left " + Show.of(got));
        }
      } else if (to == null) {
        c.same(Out.text(exp), o, what);
      } else {
        c.ok(o.ok() && o.value == to, what + " returned " + o);
        c.same("before " + exp, to.toString(), what);
      }
      c.ok(changed[0] == 0, what + ": the list was changed");
    }
    if (!fail && n <= 200) { // the same arguments handed over one by one or all together
      Args put = Args.create();
      for (FormatTraits t : own) put = put.put(t);
      Args chained = put;
      c.same(Out.text(exp), Out.of(() -> g.format(chained)), p.show() + ", put one by one, elements " + how);
      c.same(Out.text(exp), Out.of(() -> g.format(own.toArray())), p.show() + ", as an array, elements " + how);
    }
    if (fail) {
      Args plain = Arg.args(p.args().toArray(new Arg[0]));
      c.same(Out.text(exp), Out.of(() -> g.format(plain)), p.show() + " after a failure of a foreign list");
    }
  }
}
