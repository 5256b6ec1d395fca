package pbt;

import java.io.IOException;
import java.io.Writer;

/** Destinations used by the generators. */
final class Sinks {
  private Sinks() {}

  /** Decides what happens to each write. */
  interface Gate {
    /** Called before a write of n characters; returns how many to accept before failing, or -1. */
    int admit(int n);

    Throwable error();
  }

  private static final class Core {
    final StringBuilder text = new StringBuilder();
    final Gate gate;
    int writes;
    int failedAt = -1;
    boolean wroteAfterFailure;

    Core(Gate gate) {
      this.gate = gate;
    }

    void put(CharSequence cs, int a, int b) throws IOException {
      if (failedAt >= 0) wroteAfterFailure = true;
      String t = cs == null ? "null".substring(a, b) : cs.subSequence(a, b).toString();
      int k = gate == null ? -1 : gate.admit(t.length());
      writes++;
      if (k < 0) {
        text.append(t);
        return;
      }
      text.append(t, 0, Math.min(k, t.length()));
      failedAt = writes - 1;
      Throwable e = gate.error();
      if (e instanceof IOException) throw (IOException) e;
      if (e instanceof RuntimeException) throw (RuntimeException) e;
      throw (Error) e;
    }
  }

  /** An Appendable or Writer that does something of its own before it takes what is written. */
  static Appendable busy(StringBuilder to, boolean writer, Runnable before) {
    if (writer) {
      return new Writer() {
        @Override
        public Writer append(CharSequence cs) {
          before.run();
          to.append(cs);
          return this;
        }

        @Override
        public Writer append(CharSequence cs, int a, int b) {
          before.run();
          to.append(cs, a, b);
          return this;
        }

        @Override
        public Writer append(char ch) {
          before.run();
          to.append(ch);
          return this;
        }

        @Override
        public void write(int ch) {
          before.run();
          to.append((char) ch);
        }

        @Override
        public void write(String t, int off, int len) {
          before.run();
          to.append(t, off, off + len);
        }

        @Override
        public void write(char[] b, int off, int len) {
          before.run();
          to.append(b, off, len);
        }

        @Override
        public void flush() {}

        @Override
        public void close() {}
      };
    }
    return new Appendable() {
      @Override
      public Appendable append(CharSequence cs) {
        before.run();
        to.append(cs);
        return this;
      }

      @Override
      public Appendable append(CharSequence cs, int a, int b) {
        before.run();
        to.append(cs, a, b);
        return this;
      }

      @Override
      public Appendable append(char ch) {
        before.run();
        to.append(ch);
        return this;
      }
    };
  }

  /** What a recording destination saw. */
  interface Recording extends Appendable {
    StringBuilder text();

    int writes();

    boolean failed();

    boolean wroteAfterFailure();
  }

  /** A bare Appendable. */
  static final class Plain implements Recording {
    private final Core core;

    Plain(Gate g) {
      core = new Core(g);
    }

    @Override
    public Appendable append(CharSequence cs) throws IOException {
      core.put(cs, 0, cs == null ? 4 : cs.length());
      return this;
    }

    @Override
    public Appendable append(CharSequence cs, int a, int b) throws IOException {
      core.put(cs, a, b);
      return this;
    }

    @Override
    public Appendable append(char c) throws IOException {
      core.put(String.valueOf(c), 0, 1);
      return this;
    }

    @Override
    public StringBuilder text() {
      return core.text;
    }

    @Override
    public int writes() {
      return core.writes;
    }

    @Override
    public boolean failed() {
      return core.failedAt >= 0;
    }

    @Override
    public boolean wroteAfterFailure() {
      return core.wroteAfterFailure;
    }
  }

  /** A Writer, with its own ways of being written to. */
  static final class W extends Writer implements Recording {
    private final Core core;

    W(Gate g) {
      core = new Core(g);
    }

    @Override
    public void write(char[] b, int off, int len) throws IOException {
      core.put(new String(b, off, len), 0, len);
    }

    @Override
    public void flush() {}

    @Override
    public void close() {}

    @Override
    public StringBuilder text() {
      return core.text;
    }

    @Override
    public int writes() {
      return core.writes;
    }

    @Override
    public boolean failed() {
      return core.failedAt >= 0;
    }

    @Override
    public boolean wroteAfterFailure() {
      return core.wroteAfterFailure;
    }
  }
}
