package pbt;

import java.util.function.Supplier;

/** One generated case: its source of choices, and what the property reports about it. */
final class Case {
  final Src src;
  private long key = 0x9E3779B97F4A7C15L;
  boolean nontrivial;
  long checks = 0;
  long digest;
  private Supplier<String> description;
  private final Counters counters;

  Case(Src src, Counters counters) {
    this.src = src;
    this.counters = counters;
  }

  void label(String name) {
    if (counters != null) counters.label(name);
  }

  /** Marks the case as non-trivial under the property's stated rule. */
  void nontrivial() {
    nontrivial = true;
  }

  /** Feeds the decoded input into the identity used to count distinct cases. */
  void key(Object o) {
    if (o instanceof String) {
      String s = (String) o;
      for (int i = 0; i < s.length(); i++) key = (key ^ s.charAt(i)) * 0x100000001B3L;
      key = mix(key + s.length());
    } else {
      key = mix(key ^ (o == null ? 7 : o.hashCode()));
    }
  }

  void key(long v) {
    key = mix(key ^ v);
  }

  long key() {
    return key;
  }

  static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
    z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
    return z ^ (z >>> 31);
  }

  /** Contributes to a run-wide, order-independent digest of observed results. */
  void digest(String s) {
    for (int i = 0; i < s.length(); i++) digest = digest * 31 + s.charAt(i);
    digest = mix(digest + s.length());
  }

  void describe(Supplier<String> s) {
    description = s;
  }

  String description() {
    return description == null ? "(not described)" : description.get();
  }

  void fail(String message) {
    throw new Violation(message);
  }

  void same(Object expected, Object actual, String what) {
    checks++;
    if (expected == null ? actual != null : !expected.equals(actual)) {
      fail(what + "\n  expected: " + Show.of(expected) + "\n  actual:   " + Show.of(actual));
    }
  }

  void ok(boolean cond, String what) {
    checks++;
    if (!cond) fail(what);
  }
}
