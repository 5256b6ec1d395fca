package pbt;

/** One property: a generator plus oracle over a choice tape. */
abstract class Prop {
  final String id;

  Prop(String id) {
    this.id = id;
  }

  /** How cases are made and what makes one non-trivial. */
  abstract String rule();

  /** Number of generated cases in the quick tier. */
  abstract int quickCases();

  int thoroughFactor() {
    return 5;
  }

  /** Properties that change process-wide settings run on one worker. */
  boolean singleThreaded() {
    return false;
  }

  /** Decodes one case from the tape, runs it, throws Violation if the property is broken. */
  abstract void test(Case c);

  /** Extra, non-generated part, run once before the generated cases; may throw Violation. */
  void once(Counters counters, boolean thorough) {}

  String[] assumptions() {
    return new String[0];
  }
}
