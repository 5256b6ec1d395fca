package pbt;

import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;

/** A format made of pieces, with the arguments that serve it and the model's text per piece. */
final class Program {

  static final class Piece {
    String literal; // text printed, null for a conversion
    Spec spec;
    int perm;
    Arg starWidth;
    Arg starPrec;
    Arg value;

    String format() {
      if (literal != null) return literal.replace("%", "%%");
      return spec.text(perm, starWidth != null, starPrec != null);
    }

    void args(List<Arg> out) {
      if (literal != null) return;
      if (starWidth != null) out.add(starWidth);
      if (starPrec != null) out.add(starPrec);
      out.add(value);
    }

    /** The spec with the numbers supplied through * filled in. */
    Spec resolved() {
      Spec r = spec.copy();
      if (starWidth != null) {
        int w = Model.starOf(starWidth.value);
        if (w < 0) {
          r.flags |= Spec.MINUS;
          if (w == Integer.MIN_VALUE) throw new Reject("width beyond the limit");
          w = -w;
        }
        if (w > Model.LIMIT) throw new Reject("width beyond the limit");
        r.width = w;
      }
      if (starPrec != null) {
        int p = Model.starOf(starPrec.value);
        if (p > Model.LIMIT) throw new Reject("precision beyond the limit");
        r.prec = p < 0 ? -1 : p;
      }
      return r;
    }

    Check.Exp expect() {
      if (literal != null) return new Check.Exp(literal, null);
      try {
        return new Check.Exp(Model.format(resolved(), value), null);
      } catch (Reject r) {
        return new Check.Exp(null, r);
      }
    }
  }

  final List<Piece> pieces = new ArrayList<>();

  String format() {
    StringBuilder sb = new StringBuilder();
    for (Piece p : pieces) sb.append(p.format());
    return sb.toString();
  }

  List<Arg> args() {
    List<Arg> r = new ArrayList<>();
    for (Piece p : pieces) p.args(r);
    return r;
  }

  /** Number of arguments the program takes. */
  int arity() {
    return args().size();
  }

  /** Index of the first piece the model refuses, or the number of pieces. */
  int failing() {
    for (int i = 0; i < pieces.size(); i++) if (pieces.get(i).expect().reject != null) return i;
    return pieces.size();
  }

  /** Text of the first n pieces. */
  String text(int n) {
    StringBuilder sb = new StringBuilder();
    if (n > 2000) { // few different pieces
      Map<Piece, String> seen = new IdentityHashMap<>();
      for (int i = 0; i < n; i++) sb.append(seen.computeIfAbsent(pieces.get(i), p -> p.expect().text));
      return sb.toString();
    }
    for (int i = 0; i < n; i++) sb.append(pieces.get(i).expect().text);
    return sb.toString();
  }

  String text() {
    return text(pieces.size());
  }

  void add(Piece p) {
    int i = pieces.size() - 1;
    while (i >= 0 && pieces.get(i).format().isEmpty()) i--;
    if (i >= 0) {
      Piece last = pieces.get(i);
      // a brace right after %t would be read as its pattern
      if (p.literal != null && p.literal.startsWith("{") && last.literal == null
          && last.spec.lowerConv() == 't' && last.spec.datePattern == null) {
        p = literal(" " + p.literal);
      }
    }
    pieces.add(p);
  }

  String show() {
    return Show.of(format()) + " with " + args();
  }

  void key(Case c) {
    c.key(format());
    for (Arg a : args()) c.key(a.keyText());
  }

  // ---------------------------------------------------------------- generation

  static Piece literal(String t) {
    Piece p = new Piece();
    p.literal = t;
    return p;
  }

  static Piece conv(Spec s, Arg value) {
    Piece p = new Piece();
    p.spec = s;
    p.value = value;
    return p;
  }

  /** An int as one of the argument types that denote it. */
  static Arg star(Src s, int n) {
    switch (s.below(12)) {
      default:
        return new Arg(n, s.bool());
      case 5:
        return new Arg((long) n, s.bool());
      case 6:
        return Arg.of(Integer.toString(n));
      case 7:
        return n == (byte) n ? new Arg((byte) n, s.bool()) : Arg.of(n);
      case 8:
        return n == (short) n ? new Arg((short) n, s.bool()) : Arg.of(n);
      case 9:
        return new Arg((double) n, s.bool());
      case 10:
        return Arg.of(java.math.BigInteger.valueOf(n));
      case 11:
        return n >= 0 && n < 65536 ? new Arg((char) n, s.bool()) : Arg.of(new Kinds.Num(-1, -1, n));
    }
  }

  static Piece conv(Src s, String convs) {
    char conv = s.pickChar(convs);
    Spec sp = G.spec(s, conv);
    if ((conv == 't' || conv == 'T') && s.bool()) sp.datePattern = G.datePattern(s);
    Arg v = G.natural(s, conv);
    Piece p = conv(sp, v);
    p.perm = s.below(6);
    return p;
  }

  /** Turns literal width and precision into * ones at random. */
  static void stars(Src s, Piece p, int num, int den) {
    if (p.literal != null) return;
    if (s.chance(num, den)) {
      int w = p.spec.width < 0 ? s.range(0, 30) : p.spec.width;
      p.starWidth = star(s, s.bool() ? -w : w);
      p.spec.width = -1;
    }
    if (s.chance(num, den)) {
      int v = p.spec.prec >= 0 ? p.spec.prec : s.chance(1, 6) ? s.bool() ? s.pickInt(Integer.MIN_VALUE, Integer.MIN_VALUE + 1, -65536, -65537) : -1 - (int) (s.bits() >>> 33 >>> s.below(24)) : -s.range(1, 9);
      p.starPrec = star(s, v);
      p.spec.prec = -1;
    }
  }

  /** A program whose arguments all serve their conversions. */
  static Program good(Src s, int maxPieces, String convs, int starNum, int starDen) {
    Program g = new Program();
    int n = s.range(1, maxPieces);
    for (int i = 0; i < n; i++) g.add(goodPiece(s, convs, starNum, starDen));
    return g;
  }

  /** How many pieces a long program has. */
  static int bigSize(Src s) {
    if (s.chance(1, 50)) return G.huge(s, 1 << 17);
    int d = G.dictSize(s, 1500);
    switch (s.weighted(6, 3, 2)) {
      case 0:
        return s.pickInt(31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257);
      case 1:
        return Math.max(d, 1);
      default:
        return s.pickInt(300, 511, 512, 513, 1000, 1023, 1024, 1025);
    }
  }

  /** A long program whose pieces are drawn from a few templates. */
  static Program big(Src s, String convs, int starNum, int starDen) {
    int n = bigSize(s);
    Piece[] few = new Piece[s.range(1, 5)];
    for (int i = 0; i < few.length; i++) {
      Piece p = goodPiece(s, convs, starNum, starDen);
      while (p.expect().text.length() > (n > 2000 ? 20 : 200) || n > 2000 && p.format().isEmpty()) p = literal("abc");
      few[i] = p;
    }
    long r = s.bits();
    Program g = new Program();
    for (int i = 0; i < n; i++) g.add(few[(int) Math.floorMod(Case.mix(r + i), (long) few.length)]);
    return g;
  }

  static Piece goodPiece(Src s, String convs, int starNum, int starDen) {
    switch (s.weighted(6, 2, 1)) {
      case 0: {
        Piece p = conv(s, convs);
        stars(s, p, starNum, starDen);
        if (p.expect().reject != null) {
          // rare unsuitable pairs, such as a time of day without pattern
          p.value = Arg.of("x");
          p.spec.conv = 's';
          p.spec.datePattern = null;
        }
        return p;
      }
      case 1:
        return literal(G.text(s));
      default:
        return literal(s.pick("%", "{", "}", "{HH}", "d", "%d", " ", "\n", "%%"));
    }
  }
}
