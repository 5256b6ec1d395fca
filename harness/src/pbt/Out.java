package pbt;

import io.fastprintf.PrintfException;
import io.fastprintf.PrintfSyntaxException;

/** The observed outcome of a library call: text, or the throwable it ended with. */
final class Out {
  final Object value;
  final Throwable error;

  private Out(Object value, Throwable error) {
    this.value = value;
    this.error = error;
  }

  interface Call {
    Object run() throws Throwable;
  }

  static Out of(Call c) {
    try {
      return new Out(c.run(), null);
    } catch (Violation v) {
      throw v;
    } catch (ThreadDeath t) {
      throw t;
    } catch (Throwable t) {
      return new Out(null, t);
    }
  }

  static Out text(Object value) {
    return new Out(value, null);
  }

  boolean ok() {
    return error == null;
  }

  boolean rejected() {
    return error instanceof PrintfException;
  }

  boolean syntaxError() {
    return error instanceof PrintfSyntaxException;
  }

  @Override
  public boolean equals(Object o) {
    if (!(o instanceof Out)) return false;
    Out x = (Out) o;
    if (error != null || x.error != null) {
      return error != null && x.error != null && error.getClass() == x.error.getClass();
    }
    return value == null ? x.value == null : value.equals(x.value);
  }

  @Override
  public int hashCode() {
    return value == null ? 1 : value.hashCode();
  }

  @Override
  public String toString() {
    if (error == null) return Show.of(value);
    String m;
    try {
      m = String.valueOf(error.getMessage());
    } catch (Throwable t) {
      m = "(message failed: " + t + ")";
    }
    StackTraceElement[] st = error.getStackTrace();
    return "threw " + error.getClass().getName() + " " + Show.quote(m)
        + (st.length > 0 && !rejected() ? " at " + st[0] : "");
  }
}
