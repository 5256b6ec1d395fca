package pbt;

/** The property does not hold on the current case. */
final class Violation extends RuntimeException {
  Violation(String message) {
    super(message, null, false, false);
  }
}
