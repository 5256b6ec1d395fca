package pbt;

/** The model says: this argument cannot be converted; the library must refuse it. */
final class Reject extends RuntimeException {
  /** True when the documented refusal is an illegal-argument exception. */
  final boolean illegalArgument;

  Reject(String why, boolean illegalArgument) {
    super(why, null, false, false);
    this.illegalArgument = illegalArgument;
  }

  Reject(String why) {
    this(why, false);
  }
}
