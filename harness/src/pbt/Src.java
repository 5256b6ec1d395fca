package pbt;

import java.util.Arrays;
import java.util.SplittableRandom;

/**
 * The choice tape a case is decoded from. In generation mode choices come from a seeded generator
 * and are recorded; in replay mode they come from a given tape (exhausted tapes yield 0, the
 * simplest choice).
 */
final class Src {
  private SplittableRandom rng;
  private long[] tape;
  private int length;
  private int pos;
  private boolean replay;

  Src(long seed) {
    reset(seed);
  }

  Src(long[] given) {
    tape = given.clone();
    length = given.length;
    replay = true;
  }

  void reset(long seed) {
    rng = new SplittableRandom(seed);
    if (tape == null) tape = new long[64];
    length = 0;
    pos = 0;
    replay = false;
  }

  /** The choices consumed so far. */
  long[] used() {
    return Arrays.copyOf(tape, Math.min(pos, length));
  }

  /** A value in 0..max (unsigned); max = -1 means all 64-bit values. */
  long choose(long max) {
    if (replay) {
      if (pos >= length) {
        pos++;
        return 0;
      }
      long v = tape[pos];
      if (max != -1L && Long.compareUnsigned(v, max) > 0) v = Long.remainderUnsigned(v, max + 1);
      tape[pos++] = v;
      return v;
    }
    long v;
    if (max == 0) v = 0;
    else if (max == -1L) v = rng.nextLong();
    else v = rng.nextLong(max + 1);
    if (length == tape.length) tape = Arrays.copyOf(tape, length * 2);
    tape[length++] = v;
    pos = length;
    return v;
  }

  /** 0..n-1. */
  int below(int n) {
    return (int) choose(n - 1L);
  }

  int range(int lo, int hi) {
    return lo + below(hi - lo + 1);
  }

  boolean bool() {
    return choose(1) == 1;
  }

  /** True with probability num/den; false is the simpler outcome. */
  boolean chance(int num, int den) {
    return choose(den - 1L) >= den - num;
  }

  long bits() {
    return choose(-1L);
  }

  @SafeVarargs
  final <T> T pick(T... xs) {
    return xs[below(xs.length)];
  }

  int pickInt(int... xs) {
    return xs[below(xs.length)];
  }

  char pickChar(String s) {
    return s.charAt(below(s.length()));
  }

  /** Index drawn with the given weights. */
  int weighted(int... w) {
    int total = 0;
    for (int x : w) total += x;
    int v = below(total);
    for (int i = 0; i < w.length; i++) {
      if (v < w[i]) return i;
      v -= w[i];
    }
    throw new AssertionError();
  }
}
