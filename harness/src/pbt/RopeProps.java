package pbt;

import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.io.IOException;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/** C24: ropes against strings. */
final class RopeProps extends Prop {
  RopeProps() {
    super("C24");
  }

  @Override
  String rule() {
    return "sequences of up to 14 rope operations over a growing pool of (rope, string) pairs; each new rope is compared "
        + "with its string in full, bad indices must be refused, and the whole pool is compared again at the end; some cases build ropes out of thousands of operations; "
        + "non-trivial when a composite rope was cut, searched or upper-cased";
  }

  @Override
  int quickCases() {
    return 300000;
  }

  private static final class Pair {
    final Seq seq;
    final String str;
    final String how;

    Pair(Seq seq, String str, String how) {
      this.seq = seq;
      this.str = str;
      this.how = how;
    }
  }

  private static Pair leaf(Src s) {
    String t = s.chance(1, 60) ? G.textOf(s, s.pickInt(100, 255, 256, 257, 1000)) : G.textOf(s, s.range(0, 9));
    switch (s.below(10)) {
      case 0:
        return new Pair(Seq.wrap(t), t, "wrap(" + Show.of(t) + ")");
      case 1: {
        int a = s.range(0, t.length());
        return new Pair(Seq.wrap(t, a), t.substring(a), "wrap(" + Show.of(t) + "," + a + ")");
      }
      case 2: {
        int a = s.range(0, t.length());
        int b = s.range(a, t.length());
        return new Pair(Seq.wrap(t, a, b), t.substring(a, b), "wrap(" + Show.of(t) + "," + a + "," + b + ")");
      }
      case 3: {
        char ch = someChar(s);
        return new Pair(Seq.ch(ch), String.valueOf(ch), "ch(" + Show.of(String.valueOf(ch)) + ")");
      }
      case 4:
      case 5: {
        char ch = someChar(s);
        int n = s.chance(1, 30) ? s.pickInt(63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 5000) : s.range(1, 12);
        int d = G.dictSize(s, 3000);
        if (s.chance(1, 10) && d > 0) n = d;
        return new Pair(Seq.repeated(ch, n), Model.rep(ch, n), "repeated(" + Show.of(String.valueOf(ch)) + "," + n + ")");
      }
      case 6:
        return new Pair(Seq.forArray(t.toCharArray()), t, "forArray(" + Show.of(t) + ")");
      case 7: {
        int a = s.range(0, t.length());
        int n = s.range(0, t.length() - a);
        return new Pair(Seq.forArray(t.toCharArray(), a, n), t.substring(a, a + n), "forArray(" + Show.of(t) + "," + a + "," + n + ")");
      }
      case 8:
        return new Pair(Seq.lazy(sb -> sb.append(t), t.length()), t, "lazy(" + Show.of(t) + ")");
      default:
        return new Pair(Seq.empty(), "", "empty()");
    }
  }

  private static char someChar(Src s) {
    return s.chance(1, 6) ? (char) s.choose(0xFFFF) : s.pickChar("a0 bzZA9`{@[~\u007f\u0080éßÿĀ");
  }

  private static Out sub(Seq q, int a, int b) {
    return Out.of(() -> q.subSequence(a, b));
  }

  private static void compare(Case c, Pair p, Src s, boolean full) {
    Seq q = p.seq;
    String t = p.str;
    String what = p.how + " = " + Show.of(t);
    c.same(t.length(), q.length(), "length of " + what);
    c.same(t.isEmpty(), q.isEmpty(), "isEmpty of " + what);
    c.same(t, q.toString(), "toString of " + what);
    StringBuilder sb = new StringBuilder("<");
    q.appendTo(sb);
    c.same("<" + t, sb.toString(), "rendering into a builder of " + what);
    Sinks.Plain sink = new Sinks.Plain(null);
    StringBuffer buf = new StringBuffer();
    try {
      q.appendTo(sink);
      q.appendTo((Appendable) buf);
    } catch (IOException e) {
      throw new AssertionError(e);
    }
    c.same(t, sink.text().toString(), "rendering into a sink of " + what);
    c.same(t, buf.toString(), "rendering into a buffer of " + what);
    if (!full) return;
    int step = Math.max(1, t.length() / 60);
    for (int i = 0; i < t.length(); i += step) c.same(t.charAt(i), q.charAt(i), "charAt(" + i + ") of " + what);
    if (!t.isEmpty()) c.same(t.charAt(t.length() - 1), q.charAt(t.length() - 1), "last character of " + what);
    for (int k = 0; k < 4; k++) {
      char ch = t.isEmpty() || k == 3 ? someChar(s) : t.charAt(s.below(t.length()));
      if (k == 2) ch = Character.isUpperCase(ch) ? Character.toLowerCase(ch) : Character.toUpperCase(ch);
      c.same(t.indexOf(ch), q.indexOf(ch), "indexOf(" + Show.of(String.valueOf(ch)) + ") of " + what);
      c.same(!t.isEmpty() && t.charAt(0) == ch, q.startsWith(ch), "startsWith(" + Show.of(String.valueOf(ch)) + ") of " + what);
    }
    for (int k = 0; k < 3; k++) {
      int a = s.range(0, t.length());
      int b = s.range(a, t.length());
      Out o = sub(q, a, b);
      c.same(Out.text(t.substring(a, b)), o.ok() ? Out.text(o.value.toString()) : o, "subSequence(" + a + "," + b + ") of " + what);
      c.same(b - a, ((Seq) o.value).length(), "length of subSequence(" + a + "," + b + ") of " + what);
    }
    if (t.length() < 600) {
      int from = s.range(0, t.length());
      int to = s.range(from, t.length());
      c.same(t.substring(from, to), new StringBuilder().append((CharSequence) q, from, to).toString(), "characters " + from + " to " + to + " of " + what);
      c.ok(t.contentEquals(q), "a string of the same text does not have the contents of " + what);
      c.ok(Arrays.equals(t.chars().toArray(), q.chars().toArray()), "wrong stream of characters of " + what);
      c.ok(Arrays.equals(t.codePoints().toArray(), q.codePoints().toArray()), "wrong stream of code points of " + what);
    }
    int n = t.length();
    int[][] bad = {{-1, n}, {0, n + 1}, {n + 1, n + 1}, {1, 0}, {-1, -1}, {n, n - 1}, {Integer.MIN_VALUE, 0}, {0, Integer.MAX_VALUE}, {n, Integer.MAX_VALUE}};
    int[] x = bad[s.below(bad.length)];
    boolean invalid = x[0] < 0 || x[1] > n || x[0] > x[1];
    Out o = sub(q, x[0], x[1]);
    if (invalid) c.ok(!o.ok() && o.error instanceof RuntimeException, "subSequence(" + x[0] + "," + x[1] + ") of " + what + " gave " + o);
    int bi = s.pickInt(-1, n, n + 1, Integer.MIN_VALUE, Integer.MAX_VALUE);
    Out oc = Out.of(() -> q.charAt(bi));
    c.ok(!oc.ok() && oc.error instanceof RuntimeException, "charAt(" + bi + ") of " + what + " gave " + oc);
  }

  /** Whatever equality an implementation offers, equal ropes denote the same text. */
  private static void equality(Case c, Pair a, Pair b, String log) {
    boolean e = a.seq.equals(b.seq);
    c.same(e, b.seq.equals(a.seq), "symmetry of equals for " + a.how + " and " + b.how + " in " + log);
    if (!e) return;
    c.same(a.str, b.str, "texts of the equal ropes " + a.how + " and " + b.how + " in " + log);
    c.same(a.seq.hashCode(), b.seq.hashCode(), "hash codes of the equal ropes " + a.how + " and " + b.how + " in " + log);
  }

  /** An array view of the same text or of one differing in one character. */
  private static Pair twin(Src s, Pair a) {
    char[] cs = a.str.toCharArray();
    int at = cs.length == 0 ? 0 : s.below(cs.length);
    if (cs.length > 0 && s.bool()) cs[at] = s.bool() ? (char) (cs[at] + 1) : (char) (cs[at] ^ 0x20);
    return new Pair(Seq.forArray(cs), new String(cs), "forArray(" + Show.of(new String(cs)) + ")");
  }

  @Override
  void test(Case c) {
    Src s = c.src;
    List<Pair> pool = new ArrayList<>();
    int ops = s.range(1, 14);
    boolean composite = false;
    StringBuilder log = new StringBuilder();
    c.describe(log::toString);
    for (int k = 0; k < ops; k++) {
      Pair a = pool.isEmpty() ? null : pool.get(s.below(pool.size()));
      Pair r;
      int op = a == null ? 0 : s.weighted(5, 4, 3, 3, 5, 3, 1, 2, 1, 1);
      int ai = pool.indexOf(a);
      Pair b = pool.isEmpty() ? null : pool.get(s.below(pool.size()));
      int bi = pool.indexOf(b);
      if (a != null && (op == 4 || op == 5) && !a.seq.isAtomic()) composite = true;
      if (a != null && a.str.length() + b.str.length() > 20000 && !(op == 4 || op == 5) || a != null && a.str.length() > 500000) op = 0;
      switch (op) {
        case 0:
          r = leaf(s);
          break;
        case 1:
          r = new Pair(Seq.concat(a.seq, b.seq), a.str + b.str, "concat(#" + ai + ",#" + bi + ")");
          break;
        case 2:
          r = new Pair(a.seq.append(b.seq), a.str + b.str, "append(#" + ai + ",#" + bi + ")");
          break;
        case 3:
          r = new Pair(a.seq.prepend(b.seq), b.str + a.str, "prepend(#" + ai + ",#" + bi + ")");
          break;
        case 4: {
          int n = a.str.length();
          int x = s.range(0, n);
          int y = s.range(x, n);
          if (s.chance(1, 4)) x = 0;
          if (s.chance(1, 4)) y = n;
          if (x > y) x = y;
          r = new Pair(a.seq.subSequence(x, y), a.str.substring(x, y), "cut(#" + ai + "," + x + "," + y + ")");
          break;
        }
        case 5:
          r = new Pair(a.seq.upperCase(), Model.upper(a.str), "upper(#" + ai + ")");
          break;
        case 6:
          r = new Pair(a.seq.dup(), a.str, "dup(#" + ai + ")");
          break;
        case 7: { // join of leaves from the pool
          List<AtomicSeq> l = new ArrayList<>();
          StringBuilder t = new StringBuilder();
          StringBuilder h = new StringBuilder("join(");
          for (int m = s.range(0, 5); m > 0; m--) {
            int i = s.below(pool.size());
            Pair x = pool.get(i);
            if (!(x.seq instanceof AtomicSeq)) {
              Pair y = leaf(s);
              if (y.seq instanceof AtomicSeq) {
                pool.add(y);
                log.append("#").append(pool.size() - 1).append(" = ").append(y.how).append("; ");
                x = y;
                i = pool.size() - 1;
              } else continue;
            }
            l.add((AtomicSeq) x.seq);
            t.append(x.str);
            h.append('#').append(i).append(' ');
          }
          if (!l.isEmpty() && t.length() < 100 && s.chance(1, 60)) { // many parts
            int n = Program.bigSize(s);
            List<AtomicSeq> few = new ArrayList<>(l);
            long r0 = s.bits();
            for (int i = 0; i < n; i++) {
              AtomicSeq x = few.get((int) Math.floorMod(Case.mix(r0 + i), (long) few.size()));
              l.add(x);
              t.append(x.toString());
            }
            h.append("and ").append(n).append(" more of them");
            c.label("many parts");
          }
          r = new Pair(Seq.join(l), t.toString(), h + ")");
          break;
        }
        case 8:
          r = new Pair(a.seq.map(q -> q.append(b.seq)), a.str + b.str, "map(#" + ai + ", append #" + bi + ")");
          break;
        default: { // many small steps
          int n = s.chance(1, 20) ? s.range(500, 3000) : s.range(2, 40);
          boolean deep = s.chance(1, 400) && b.str.length() > 0 && b.str.length() < 4 && a.str.length() < 200;
          if (deep) n = s.chance(1, 4) ? G.huge(s, 1 << 18) : s.range(30000, 150000);
          boolean front = s.bool();
          Seq q = a.seq;
          StringBuilder t = new StringBuilder(front ? new StringBuilder(a.str).reverse() : a.str);
          String all = a.str;
          if (!deep && (all.length() > 300 || n > 50 && b.str.length() > 5)) n = 2;
          int way = deep ? s.below(4) : 0;
          if (deep) c.label("deep rope");
          StringBuilder pre = new StringBuilder();
          for (int i = 0; i < n; i++) {
            if (way == 3) q = front ? Seq.concat(b.seq, q) : Seq.concat(q, b.seq);
            else q = front ? q.prepend(b.seq) : q.append(b.seq);
            pre.append(b.str);
          }
          all = front ? pre + a.str : a.str + pre;
          r = new Pair(q, all, (front ? "prepend " : "append ") + n + " times #" + bi + " to #" + ai);
        }
      }
      log.append("#").append(pool.size()).append(" = ").append(r.how).append("; ");
      compare(c, new Pair(r.seq, r.str, r.how + " in " + log), s, true);
      if (!r.seq.isAtomic()) composite |= op == 4 || op == 5;
      pool.add(r);
    }
    for (int i = 0; i < pool.size(); i++) {
      Pair p = pool.get(i);
      compare(c, new Pair(p.seq, p.str, "#" + i + " at the end of " + log), s, false);
    }
    for (int k = 0; k < 3; k++) {
      Pair a = pool.get(s.below(pool.size()));
      if (a.str.length() > 600) continue;
      Pair b = twin(s, a);
      equality(c, a, b, log.toString());
      equality(c, b, twin(s, b), log.toString());
      equality(c, a, pool.get(s.below(pool.size())), log.toString());
    }
    if (s.chance(1, 20)) {
      c.ok(Out.of(() -> Seq.repeated('x', -s.below(3))).error instanceof RuntimeException, "repeated with a non-positive count accepted");
      c.ok(Out.of(() -> Seq.wrap("abc", 2, 1)).error instanceof RuntimeException, "wrap with crossed indices accepted");
      c.ok(Out.of(() -> Seq.wrap("abc", 0, 4)).error instanceof RuntimeException, "wrap beyond the end accepted");
      c.ok(Out.of(() -> Seq.wrap("abc", -1)).error instanceof RuntimeException, "wrap before the start accepted");
      c.ok(Out.of(() -> Seq.forArray(new char[3], 2, 2)).error instanceof RuntimeException, "array view beyond the end accepted");
      c.ok(Out.of(() -> Seq.forArray(new char[3], -1, 2)).error instanceof RuntimeException, "array view before the start accepted");
      c.label("bad construction");
    }
    c.key(log.toString());
    if (composite) c.nontrivial();
    c.label("pool " + (pool.size() > 8 ? ">8" : pool.size() > 3 ? "4..8" : "<=3"));
  }
}
