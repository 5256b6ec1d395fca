package pbt;

import io.fastprintf.FastPrintf;

/** Comparison of library calls with the model. */
final class Check {
  private Check() {}

  /** The model's verdict on one conversion. */
  static final class Exp {
    final String text;
    final Reject reject;

    Exp(String text, Reject reject) {
      this.text = text;
      this.reject = reject;
    }

    @Override
    public String toString() {
      return reject != null ? "refusal (" + reject.getMessage() + ")" : Show.of(text);
    }
  }

  static Exp expect(Spec s, Arg a) {
    try {
      return new Exp(Model.format(s, a), null);
    } catch (Reject r) {
      return new Exp(null, r);
    }
  }

  static boolean refused(Out o, Reject r) {
    return r.illegalArgument ? o.error instanceof IllegalArgumentException : o.rejected();
  }

  static void agree(Case c, Exp e, Out o, String what) {
    c.checks++;
    boolean good = e.reject != null ? refused(o, e.reject) : o.ok() && e.text.equals(o.value);
    if (!good) c.fail(what + "\n  expected: " + e + "\n  actual:   " + o);
  }

  /** One conversion, one argument, against the model. */
  static Out conv(Case c, Spec s, int perm, Arg a) {
    String f = s.text(perm, false, false);
    c.key(f);
    c.key(a.keyText());
    c.describe(() -> Show.of(f) + " with " + a.show());
    Exp e = expect(s, a);
    Out o = Out.of(() -> FastPrintf.compile(f).format(Arg.args(a)));
    agree(c, e, o, "wrong result for " + Show.of(f) + " with " + a.show());
    if (c.src.chance(1, 24)) after(c, s, f, a, e); // another value and the first again
    return o;
  }

  /** A value easily mistaken for another is formatted right after it, by the same or another formatter. */
  static void after(Case c, Spec s, String f, Arg a, Exp e) {
    if (c.src.chance(1, 3)) { // the same value, written differently
      Spec o = c.src.bool() ? s.withPrec(G.spec(c.src, s.conv).prec) : G.spec(c.src, s.conv);
      o.datePattern = s.datePattern;
      String g = o.text();
      Out oo = Out.of(() -> FastPrintf.compile(g).format(Arg.args(a)));
      agree(c, expect(o, a), oo, "wrong result for " + Show.of(g) + " with " + a.show() + " after " + Show.of(f));
      return;
    }
    boolean hash = c.src.bool();
    Arg t = hash ? Twin.of(c.src, a) : Twin.near(c.src, a);
    if (t == null) return;
    boolean one = c.src.bool();
    FastPrintf g = FastPrintf.compile(f);
    Out.of(() -> g.format(Arg.args(a)));
    String where = one ? " by the same formatter" : "";
    Out ot = Out.of(() -> (one ? g : FastPrintf.compile(f)).format(Arg.args(t)));
    agree(c, expect(s, t), ot, "wrong result for " + Show.of(f) + " with " + t.show() + " after " + a.show() + where);
    Out oa = Out.of(() -> (one ? g : FastPrintf.compile(f)).format(Arg.args(a)));
    agree(c, e, oa, "wrong result for " + Show.of(f) + " with " + a.show() + " after " + t.show() + where);
  }

  /** Picks one of the directed examples: {format, value, format, value, ...}. */
  static Out directed(Case c, Object... ex) {
    int k = c.src.below(ex.length / 2);
    Object v = ex[2 * k + 1];
    Arg a = v instanceof Arg ? (Arg) v : Arg.of(v);
    c.label("directed");
    return conv(c, Grammar.spec((String) ex[2 * k]), 0, a);
  }
}
