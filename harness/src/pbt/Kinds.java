package pbt;

import java.io.Closeable;
import java.io.Externalizable;
import java.io.Flushable;
import java.io.Serializable;
import java.io.StringWriter;
import java.lang.annotation.Annotation;
import java.lang.reflect.AnnotatedElement;
import java.lang.reflect.ParameterizedType;
import java.lang.reflect.Proxy;
import java.lang.reflect.Type;
import java.net.URI;
import java.nio.charset.StandardCharsets;
import java.nio.file.Path;
import java.security.Key;
import java.security.Principal;
import java.time.Duration;
import java.time.Period;
import java.time.ZoneId;
import java.time.temporal.ChronoField;
import java.time.temporal.ChronoUnit;
import java.time.temporal.TemporalAmount;
import java.time.temporal.TemporalField;
import java.time.temporal.TemporalUnit;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.*;
import java.util.concurrent.Callable;
import java.util.concurrent.Future;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicReference;
import java.util.function.BooleanSupplier;
import java.util.function.Consumer;
import java.util.function.DoubleSupplier;
import java.util.function.Function;
import java.util.function.IntSupplier;
import java.util.function.LongSupplier;
import java.util.function.Supplier;
import java.util.function.ToLongFunction;
import java.util.regex.Pattern;
import java.util.stream.IntStream;
import java.util.stream.Stream;
import java.io.IOException;
import java.time.temporal.TemporalAccessor;

/** User-defined argument types used by the generators. */
final class Kinds {
  private Kinds() {}

  /** A character sequence that is none of the JDK's. */
  static final class Cs implements CharSequence {
    final String s;

    Cs(String s) {
      this.s = s;
    }

    @Override
    public int length() {
      return s.length();
    }

    @Override
    public char charAt(int i) {
      return s.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return new Cs(s.substring(a, b));
    }

    @Override
    public String toString() {
      return s;
    }
  }

  /** A number whose four views are unrelated. */
  static final class Num extends Number {
    final long l;
    final double d;
    final int i;

    Num(long l, double d, int i) {
      this.l = l;
      this.d = d;
      this.i = i;
    }

    @Override
    public int intValue() {
      return i;
    }

    @Override
    public long longValue() {
      return l;
    }

    @Override
    public float floatValue() {
      return Float.NaN;
    }

    @Override
    public double doubleValue() {
      return d;
    }

    @Override
    public String toString() {
      return "Num(" + l + "," + d + "," + i + ")";
    }
  }

  /** An object with a given text; equal to everything of its kind, with a fixed hash. */
  static final class Obj {
    final String s;

    Obj(String s) {
      this.s = s;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Obj;
    }

    @Override
    public int hashCode() {
      return 42;
    }

    @Override
    public String toString() {
      return s;
    }
  }

  /** An object without own text. */
  static final class Plain {}

  private static final Class<?>[] FACES = {
    Comparable.class, Iterable.class, Collection.class, List.class, Set.class, Deque.class, Map.class, Map.Entry.class, Iterator.class, Enumeration.class,
    Runnable.class, Callable.class, Supplier.class, Function.class, IntSupplier.class, LongSupplier.class, DoubleSupplier.class, BooleanSupplier.class,
    ToLongFunction.class, Consumer.class, Type.class, ParameterizedType.class, AnnotatedElement.class, Annotation.class, Readable.class,
    Appendable.class, Closeable.class, AutoCloseable.class, Flushable.class, Serializable.class, Cloneable.class, EventListener.class, Formattable.class,
    Future.class, Path.class, Principal.class, TemporalAmount.class, TemporalUnit.class, TemporalField.class, Stream.class, IntStream.class,
    Externalizable.class, RandomAccess.class, Thread.UncaughtExceptionHandler.class, Comparator.class, PrimitiveIterator.OfLong.class, Key.class
  };

  /** An object of an interface that none of the conversions treats specially; only its text may be asked for. */
  static Object face(Src s, String text) {
    Class<?> type = FACES[s.below(FACES.length)];
    int hash = text.hashCode();
    return Proxy.newProxyInstance(Kinds.class.getClassLoader(), new Class<?>[] {type}, (o, m, as) -> {
      switch (m.getName()) {
        case "toString":
          return text;
        case "hashCode":
          return hash;
        case "equals":
          return true;
        default:
          throw new UserException(m.getName() + " called");
      }
    });
  }

  private static final Object[] SUNDRY = {
    String.class, int[].class, Optional.empty(), Optional.of("o"), OptionalInt.of(5), OptionalDouble.of(0.5), new UUID(1, 2), URI.create("http://a/%2d?x"),
    Locale.GERMANY, Locale.ROOT, Currency.getInstance("EUR"), Duration.ofSeconds(3661), Period.of(1, 2, 3), new AtomicReference<Object>("r"), new AtomicBoolean(true),
    new StringJoiner(",", "[", "]").add("a"), BitSet.valueOf(new long[] {5}), new IllegalStateException("m"), new StackOverflowError("e"),
    StandardCharsets.UTF_8, TimeUnit.DAYS, Thread.State.NEW, ChronoUnit.DAYS, ChronoField.YEAR, ZoneId.of("Europe/Paris"),
    new AbstractMap.SimpleEntry<Object, Object>("k", 1), new TreeSet<Object>(Arrays.asList(3, 1, 2)), new ArrayDeque<Object>(Arrays.asList("x", 'y')),
    Collections.emptyList(), Collections.emptyMap(), Collections.nCopies(3, null), new Properties(), Pattern.compile("%s+"), new java.io.File("a/b"),
    new StringWriter().append("written"), new Vector<Object>(Arrays.asList(1L, 2.5)), EnumSet.of(TimeUnit.DAYS, TimeUnit.HOURS), Boolean.class, Void.class,
    new java.util.SimpleTimeZone(3600000, "X"), java.util.TimeZone.getTimeZone("GMT"), java.nio.ByteBuffer.allocate(3), java.util.logging.Level.INFO,
    java.time.ZoneOffset.ofHoursMinutes(5, 30), java.nio.file.Paths.get("a", "..", "b"), new java.util.IdentityHashMap<Object, Object>(),
    java.text.Normalizer.Form.NFC, java.math.MathContext.DECIMAL64, new java.util.PriorityQueue<Object>(Arrays.asList(2, 1)), java.util.Calendar.class,
    new java.util.concurrent.CopyOnWriteArrayList<Object>(Arrays.asList("c", null)), java.nio.ByteOrder.BIG_ENDIAN, new java.util.LinkedList<Object>(Arrays.asList((Object) null))
  };

  /** An object of one of the runtime's own classes that no conversion treats specially. */
  static Object sundry(Src s) {
    return SUNDRY[s.below(SUNDRY.length)];
  }

  /** An integer of a class derived from the runtime's. */
  static final class OwnInteger extends BigInteger {
    OwnInteger(BigInteger v) {
      super(v.toByteArray());
    }
  }

  /** A decimal of a class derived from the runtime's. */
  static final class OwnDecimal extends BigDecimal {
    OwnDecimal(BigDecimal v) {
      super(v.unscaledValue(), v.scale());
    }
  }

  /** A number of one of the runtime's less common classes. */
  static Number number(Src s) {
    long l = G.anyLong(s);
    switch (s.below(6)) {
      case 0: {
        java.util.concurrent.atomic.DoubleAdder a = new java.util.concurrent.atomic.DoubleAdder();
        a.add(G.finite(s));
        return a;
      }
      case 1: {
        java.util.concurrent.atomic.LongAdder a = new java.util.concurrent.atomic.LongAdder();
        a.add(l);
        return a;
      }
      case 2:
        return new java.util.concurrent.atomic.LongAccumulator(Long::max, l);
      case 3:
        return new java.util.concurrent.atomic.DoubleAccumulator(Double::max, G.finite(s));
      case 4:
        return new java.util.concurrent.atomic.AtomicLong(l);
      default:
        return new java.util.concurrent.atomic.AtomicInteger((int) l);
    }
  }

  /** A temporal that supports nothing. */
  static final class NoFields implements TemporalAccessor {
    @Override
    public boolean isSupported(TemporalField f) {
      return false;
    }

    @Override
    public long getLong(TemporalField f) {
      throw new java.time.temporal.UnsupportedTemporalTypeException("none");
    }

    @Override
    public String toString() {
      return "NoFields";
    }
  }

  /** A user-defined date/time value standing for another. */
  static final class Moment implements TemporalAccessor {
    private final TemporalAccessor of;

    Moment(TemporalAccessor of) {
      this.of = of;
    }

    @Override
    public boolean isSupported(TemporalField f) {
      return of.isSupported(f);
    }

    @Override
    public long getLong(TemporalField f) {
      return of.getLong(f);
    }

    @Override
    public <R> R query(java.time.temporal.TemporalQuery<R> q) {
      return of.query(q);
    }

    @Override
    public String toString() {
      return "Moment of " + of;
    }
  }

  /** Exceptions code might be tempted to treat specially. */
  static RuntimeException runtime(Src s) {
    if (s.chance(1, 2)) return platform(s, RUNTIME, RuntimeException.class);
    switch (s.below(16)) {
      case 0:
        return new IllegalStateException("own");
      case 1:
        return new io.fastprintf.PrintfException("own");
      case 2:
        return new NumberFormatException("own");
      case 3:
        return new ArithmeticException("own");
      case 4:
        return new NullPointerException("own");
      case 5:
        return new ClassCastException("own");
      case 6:
        return new StringIndexOutOfBoundsException("own");
      case 7:
        return new java.time.DateTimeException("own");
      case 8:
        return new java.time.temporal.UnsupportedTemporalTypeException("own");
      case 9:
        return new java.util.NoSuchElementException("own");
      case 10:
        return new UnsupportedOperationException("own");
      case 11:
        return new java.util.ConcurrentModificationException("own");
      case 12:
        return new java.io.UncheckedIOException(new IOException("own"));
      case 13:
        return new java.nio.BufferOverflowException();
      case 14:
        return new IllegalArgumentException("own");
      default:
        return new RuntimeException("own", new IOException("inner"));
    }
  }

  static Error error(Src s) {
    if (s.chance(1, 2)) return platform(s, ERRORS, Error.class);
    switch (s.below(5)) {
      case 0:
        return new StackOverflowError("own");
      case 1:
        return new OutOfMemoryError("own");
      case 2:
        return new AssertionError("own");
      case 3:
        return new NoSuchMethodError("own");
      default:
        return new ExceptionInInitializerError("own");
    }
  }

  private static final String[] RUNTIME = {
    "java.lang.ArrayStoreException", "java.lang.NegativeArraySizeException", "java.lang.IndexOutOfBoundsException",
    "java.lang.ArrayIndexOutOfBoundsException", "java.lang.IllegalMonitorStateException", "java.lang.IllegalThreadStateException",
    "java.lang.SecurityException", "java.util.InputMismatchException", "java.util.EmptyStackException",
    "java.util.UnknownFormatConversionException", "java.util.DuplicateFormatFlagsException", "java.util.IllegalFormatWidthException",
    "java.util.IllegalFormatPrecisionException", "java.util.FormatterClosedException", "java.nio.BufferUnderflowException",
    "java.nio.ReadOnlyBufferException", "java.nio.charset.UnsupportedCharsetException", "java.nio.charset.IllegalCharsetNameException",
    "java.time.zone.ZoneRulesException", "java.util.concurrent.CancellationException", "java.util.concurrent.RejectedExecutionException",
    "java.lang.reflect.MalformedParameterizedTypeException", "java.nio.channels.IllegalBlockingModeException",
    "java.nio.file.ClosedFileSystemException", "java.lang.annotation.IncompleteAnnotationException", "java.lang.MatchException",
    "java.lang.LayerInstantiationException", "java.lang.WrongThreadException"
  };
  private static final String[] ERRORS = {
    "java.lang.InternalError", "java.lang.UnknownError", "java.lang.LinkageError", "java.lang.NoClassDefFoundError",
    "java.lang.VerifyError", "java.lang.AbstractMethodError", "java.lang.IncompatibleClassChangeError", "java.lang.UnsatisfiedLinkError",
    "java.lang.ClassCircularityError", "java.lang.ClassFormatError", "java.lang.UnsupportedClassVersionError", "java.lang.NoSuchFieldError",
    "java.lang.IllegalAccessError", "java.lang.InstantiationError", "java.lang.BootstrapMethodError", "java.util.ServiceConfigurationError",
    "java.lang.annotation.AnnotationFormatError", "java.util.zip.ZipError"
  };
  private static final String[] IO = {
    "java.io.CharConversionException", "java.io.UTFDataFormatException", "java.io.InvalidObjectException", "java.io.NotSerializableException",
    "java.io.NotActiveException", "java.io.StreamCorruptedException", "java.io.SyncFailedException", "java.io.InvalidClassException",
    "java.nio.charset.CharacterCodingException", "java.nio.charset.UnmappableCharacterException",
    "java.nio.channels.ClosedByInterruptException", "java.nio.channels.AsynchronousCloseException",
    "java.nio.channels.InterruptedByTimeoutException", "java.nio.channels.FileLockInterruptionException",
    "java.nio.file.FileSystemException", "java.nio.file.NoSuchFileException", "java.nio.file.AccessDeniedException",
    "java.nio.file.FileAlreadyExistsException", "java.nio.file.DirectoryNotEmptyException", "java.nio.file.FileSystemLoopException",
    "java.net.SocketException", "java.net.ConnectException", "java.net.BindException", "java.net.NoRouteToHostException",
    "java.net.PortUnreachableException", "java.net.ProtocolException", "java.net.MalformedURLException", "java.net.UnknownHostException",
    "java.net.UnknownServiceException", "java.util.InvalidPropertiesFormatException", "java.util.zip.ZipException",
    "java.util.jar.JarException", "pbt.Kinds$UserIOException"
  };

  static final class UserIOException extends IOException {
    UserIOException(String m) {
      super(m);
    }
  }

  /** An exception of one of the named classes, or a plain one where this runtime has no such class. */
  private static <T extends Throwable> T platform(Src s, String[] names, Class<T> type) {
    String name = names[s.below(names.length)];
    Object made = null;
    try {
      for (java.lang.reflect.Constructor<?> c : Class.forName(name).getDeclaredConstructors()) {
        Class<?>[] ps = c.getParameterTypes();
        boolean open = java.lang.reflect.Modifier.isPublic(c.getModifiers()) || name.startsWith("pbt.");
        if (!open || made != null) continue;
        if (ps.length == 0) made = c.newInstance();
        else if (ps.length == 1 && ps[0] == String.class) made = c.newInstance("own");
        else if (ps.length == 1 && ps[0] == int.class) made = c.newInstance(1);
      }
    } catch (ReflectiveOperationException | LinkageError e) {
      made = null;
    }
    if (made == null) made = type == IOException.class ? new IOException("own") : type == Error.class ? new Error("own") : new RuntimeException("own");
    return type.cast(made);
  }

  static IOException io(Src s) {
    if (s.chance(1, 2)) return platform(s, IO, IOException.class);
    switch (s.below(8)) {
      case 0:
        return new java.io.FileNotFoundException("own");
      case 1:
        return new java.io.InterruptedIOException("own");
      case 2:
        return new java.io.EOFException("own");
      case 3:
        return new java.nio.channels.ClosedChannelException();
      case 4:
        return new java.nio.charset.MalformedInputException(1);
      case 5:
        return new java.io.UnsupportedEncodingException("own");
      case 6:
        return new java.net.SocketTimeoutException("own");
      default:
        return new IOException("own", new IOException("inner"));
    }
  }

  static final class UserException extends RuntimeException {
    UserException(String m) {
      super(m, null, false, false);
    }
  }

  static final class UserError extends Error {
    UserError(String m) {
      super(m, null, false, false);
    }
  }

  /** An argument whose every method throws the given throwable. */
  static final class Bomb implements CharSequence {
    final RuntimeException ex;
    final Error er;

    Bomb(RuntimeException ex, Error er) {
      this.ex = ex;
      this.er = er;
    }

    private RuntimeException boom() {
      if (er != null) throw er;
      throw ex;
    }

    @Override
    public int length() {
      throw boom();
    }

    @Override
    public char charAt(int i) {
      throw boom();
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      throw boom();
    }

    @Override
    public String toString() {
      throw boom();
    }
  }

  static final class BombObj {
    final RuntimeException ex;
    final Error er;

    BombObj(RuntimeException ex, Error er) {
      this.ex = ex;
      this.er = er;
    }

    @Override
    public String toString() {
      if (er != null) throw er;
      throw ex;
    }
  }

  static final class BombNum extends Number {
    final RuntimeException ex;
    final Error er;

    BombNum(RuntimeException ex, Error er) {
      this.ex = ex;
      this.er = er;
    }

    private RuntimeException boom() {
      if (er != null) throw er;
      throw ex;
    }

    @Override
    public int intValue() {
      throw boom();
    }

    @Override
    public long longValue() {
      throw boom();
    }

    @Override
    public float floatValue() {
      throw boom();
    }

    @Override
    public double doubleValue() {
      throw boom();
    }

    @Override
    public String toString() {
      throw boom();
    }
  }
}
