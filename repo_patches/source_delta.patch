From a942638d704e6b41f5680e99d6a28c9b8ae77f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:16 +0000
Subject: [PATCH 01/21] fix: print the sign blank for a zero %d with precision
 0

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f4c995a..4f9bc67 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -73,8 +73,7 @@ public final class SeqFormatter {
   static Seq d(FormatContext context, IntForm value) {
     int signum = value.signum();
     if (signum == 0 && context.getPrecision() == 0) {
-      Seq v0 = context.hasFlag(Flag.PLUS) ? Seq.ch('+') : Seq.empty();
-      return spaceJustify(context, v0);
+      return spaceJustify(context, sign(context, Seq.empty(), false));
     }
     Seq v0 = Seq.wrap(value.toDecimalString());
     int precision = 1;
-- 
2.43.0


From 4061b70f3c12e9c4be84c7f4e4d51d16c431ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:16 +0000
Subject: [PATCH 02/21] fix: zero values with '#' in %o and %x keep their full
 width and precision

---
 .../java/io/fastprintf/appender/SeqFormatter.java     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 4f9bc67..5c66f30 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -110,21 +110,24 @@ public final class SeqFormatter {
   private static Seq formatUnsignedInteger(
       FormatContext context, IntForm value, Function<IntForm, String> toString, String prefix) {
     int signum = value.signum();
+    // A zero value gets no "0x" prefix; its octal "0" prefix is already the leading digit.
+    boolean prefixed = signum != 0 && context.hasFlag(Flag.ALTERNATE);
     if (signum == 0 && context.getPrecision() == 0) {
-      return spaceJustify(context, Seq.empty());
+      boolean octalZero = context.hasFlag(Flag.ALTERNATE) && "0".equals(prefix);
+      return spaceJustify(context, octalZero ? Seq.ch('0') : Seq.empty());
     }
     Seq v0 = Seq.wrap(toString.apply(value));
     int precision = 1;
     if (context.isPrecisionSet()) {
       precision = context.getPrecision();
-      if (context.hasFlag(Flag.ALTERNATE) && "0".equals(prefix)) {
+      if (prefixed && "0".equals(prefix)) {
         --precision;
       }
     } else if (context.hasFlag(Flag.ZERO_PAD)
         && context.isWidthSet()
         && !context.hasFlag(Flag.LEFT_JUSTIFY)) {
       precision = context.getWidth();
-      if (context.hasFlag(Flag.ALTERNATE)) {
+      if (prefixed) {
         precision -= prefix.length();
       }
     }
@@ -132,7 +135,7 @@ public final class SeqFormatter {
       Seq pad = Seq.repeated('0', precision - v0.length());
       v0 = v0.prepend(pad);
     }
-    if (signum != 0 && context.hasFlag(Flag.ALTERNATE)) {
+    if (prefixed) {
       v0 = v0.prepend(Seq.wrap(prefix));
     }
     return spaceJustify(context, v0);
-- 
2.43.0


From 8ef4c8af12d97a5ca693e9d06cabd221ea245d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:11 +0000
Subject: [PATCH 03/21] fix: honour the space flag for positive infinity

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 5c66f30..8922d74 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -151,6 +151,8 @@ public final class SeqFormatter {
         v0 = Seq.wrap("-Infinity");
       } else if (context.hasFlag(Flag.PLUS)) {
         v0 = Seq.wrap("+Infinity");
+      } else if (context.hasFlag(Flag.LEADING_SPACE)) {
+        v0 = Seq.wrap(" Infinity");
       } else {
         v0 = Seq.wrap("Infinity");
       }
-- 
2.43.0


From f58eb95a8741047a9488801a5629b3150dd10fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:48 +0000
Subject: [PATCH 04/21] fix: pad the mantissa of %#g to its precision in
 exponent style

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 8922d74..b880355 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -269,9 +269,11 @@ public final class SeqFormatter {
   }
 
   /** Formats the mantissa and exponent for %g when it chooses scientific representation. */
-  private static Seq formatGScientific(FormatContext context, FloatLayout layout) {
+  private static Seq formatGScientific(FormatContext context, FloatLayout layout, int precision) {
     Seq mantissa = layout.getMantissa();
-    if (!context.hasFlag(Flag.ALTERNATE)) {
+    if (context.hasFlag(Flag.ALTERNATE)) {
+      mantissa = formatFractionalPart(mantissa, precision - 1, false);
+    } else {
       mantissa = stripTrailingZeros(mantissa);
     }
     return mantissa.append(Seq.ch('e')).append(layout.getExponent());
@@ -298,7 +300,7 @@ public final class SeqFormatter {
       v0 = formatGDecimal(context, layout, precision);
     } else {
       // Use scientific ('e'-style) representation
-      v0 = formatGScientific(context, layout);
+      v0 = formatGScientific(context, layout, precision);
     }
 
     return signAndJustify(context, v0, value.isNegative());
-- 
2.43.0


From ca3b10b8cd87d405bdf1ec586d536c4db9256a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:48 +0000
Subject: [PATCH 05/21] fix: print a two-digit exponent for ten-digit decimals
 in %e

---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index cea869e..16c27f5 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -38,7 +38,7 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale == 0) {
       if (length > 1) {
         Seq mant = insertDotAfterFirstChar(unscaledString);
-        Seq exp = length < 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
+        Seq exp = length <= 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
         return new FloatLayout(mant, exp);
       } else {
         return new FloatLayout(Seq.wrap(unscaledString), Seq.wrap("+00"));
-- 
2.43.0


From 550d6692d5ae47bdc2566a39e902acd2979fe4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:48 +0000
Subject: [PATCH 06/21] fix: ignore the scale of decimal zeros when formatting

---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 16c27f5..5be25c4 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -13,13 +13,13 @@ public final class BigDecimalWrapper implements FloatForm {
   private final int signum;
 
   public BigDecimalWrapper(BigDecimal value) {
-    this.value = value.abs();
     this.signum = value.signum();
+    this.value = signum == 0 ? BigDecimal.ZERO : value.abs();
   }
 
   public BigDecimalWrapper(BigInteger unscaledValue, int scale) {
-    this.value = new BigDecimal(unscaledValue.abs(), scale);
     this.signum = unscaledValue.signum();
+    this.value = signum == 0 ? BigDecimal.ZERO : new BigDecimal(unscaledValue.abs(), scale);
   }
 
   private static Seq insertDotAfterFirstChar(String unscaledString) {
-- 
2.43.0


From 42f542cab50f813f9001e0aa4daa4c55b7ce9518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:48 +0000
Subject: [PATCH 07/21] fix: choose the style of %g for decimals by the rounded
 value

---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 5be25c4..e5e96ec 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -114,10 +114,12 @@ public final class BigDecimalWrapper implements FloatForm {
   public FloatLayout generalLayout(int precision) {
     BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
     BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
+    // As in C, the style depends on the value after rounding to the requested precision.
+    BigDecimal rounded = value.round(new MathContext(precision));
     if ((value.equals(BigDecimal.ZERO))
-        || ((value.compareTo(tenToTheNegFour) >= 0) && (value.compareTo(tenToThePrec) < 0))) {
+        || ((rounded.compareTo(tenToTheNegFour) >= 0) && (rounded.compareTo(tenToThePrec) < 0))) {
 
-      int e = -value.scale() + (value.unscaledValue().toString().length() - 1);
+      int e = -rounded.scale() + (rounded.unscaledValue().toString().length() - 1);
 
       // xxx.yyy
       //   g precision (# sig digits) = #x + #y
-- 
2.43.0


From 2c5c4ef7c1d47e9a2867035e1da58ab40e408a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:48 +0000
Subject: [PATCH 08/21] fix: compute the length of a composite sub-sequence
 from the requested range

---
 src/main/java/io/fastprintf/seq/AtomicSeqIterable.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
index ce19602..a6f795f 100644
--- a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
+++ b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
@@ -34,6 +34,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     Preconditions.checkPositionIndexes(start, end, length);
     if (start == end) return Seq.empty();
     if (start == 0 && end == length) return this;
+    int newLength = end - start;
     List<AtomicSeq> buffer = new ArrayList<>();
     for (AtomicSeq seq : this) {
       int seqLength = seq.length();
@@ -53,7 +54,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     if (buffer.size() == 1) {
       return buffer.get(0);
     }
-    return new SeqArray(buffer.toArray(new AtomicSeq[0]), end - start);
+    return new SeqArray(buffer.toArray(new AtomicSeq[0]), newLength);
   }
 
   /**
-- 
2.43.0


From 3ed7de73c92473d37626c8ccb88c4fa0df734333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:30 +0000
Subject: [PATCH 09/21] fix: compile formats iteratively so that long ones do
 not overflow the stack

---
 src/main/java/io/fastprintf/Compiler.java | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index a3514a6..2683972 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -21,7 +21,9 @@ final class Compiler {
   }
 
   void compile() {
-    parseNext();
+    while (!endOfSource()) {
+      parseNext();
+    }
   }
 
   private boolean endOfSource() {
@@ -29,7 +31,6 @@ final class Compiler {
   }
 
   private void parseNext() {
-    if (endOfSource()) return;
     char c = source.charAt(lookahead);
     if (c == '%') {
       lookahead++;
@@ -45,7 +46,6 @@ final class Compiler {
     if (c == '%') {
       lookahead++;
       appenders.add(new FixedStringAppender("%"));
-      parseNext();
       return;
     }
     // %[flags][width][.precision]specifier[{date-time-formatter}]
@@ -59,7 +59,6 @@ final class Compiler {
     }
     FormatContext context = FormatContext.create(flags, width, precision, dateTimeFormatter);
     appenders.add(new DefaultAppender(specifier, context));
-    parseNext();
   }
 
   private EnumSet<Flag> flags() {
@@ -209,8 +208,7 @@ final class Compiler {
       return;
     }
     appenders.add(new FixedStringAppender(source.substring(lookahead, nextPercent)));
-    lookahead = nextPercent + 1;
-    forPattern();
+    lookahead = nextPercent;
   }
 
   List<Appender> getAppenders() {
-- 
2.43.0


From 26d81f3adbccfdecee5437f6db8cea819742ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:30 +0000
Subject: [PATCH 10/21] fix: reject the smallest int as a '*' width

---
 src/main/java/io/fastprintf/appender/DefaultAppender.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/java/io/fastprintf/appender/DefaultAppender.java b/src/main/java/io/fastprintf/appender/DefaultAppender.java
index e947ff1..5f16079 100644
--- a/src/main/java/io/fastprintf/appender/DefaultAppender.java
+++ b/src/main/java/io/fastprintf/appender/DefaultAppender.java
@@ -100,6 +100,10 @@ public final class DefaultAppender implements Appender {
     FormatContext context = this.context;
     if (context.isPrecedingWidth()) {
       int w = nextInt(traitsIterator);
+      if (w == Integer.MIN_VALUE) {
+        // Has no positive counterpart, and would be mistaken for FormatContext.PRECEDING.
+        throw new PrintfException("Width %s exceeds the maximum allowed value", w);
+      }
       if (w >= 0) {
         context = context.setWidth(w);
       } else {
-- 
2.43.0


From 908cd63232dd0c1775bc89430c2bca9e05953b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:30 +0000
Subject: [PATCH 11/21] fix: return an unmodifiable list from Args.values as
 documented

---
 src/main/java/io/fastprintf/ArgsImpl.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/ArgsImpl.java b/src/main/java/io/fastprintf/ArgsImpl.java
index 37dc4d5..6cd7265 100644
--- a/src/main/java/io/fastprintf/ArgsImpl.java
+++ b/src/main/java/io/fastprintf/ArgsImpl.java
@@ -5,6 +5,7 @@ import java.math.BigDecimal;
 import java.math.BigInteger;
 import java.time.temporal.TemporalAccessor;
 import java.util.ArrayList;
+import java.util.Collections;
 import java.util.Iterator;
 import java.util.List;
 import java.util.function.BiFunction;
@@ -63,7 +64,7 @@ final class ArgsImpl implements Args {
     for (FormatTraits trait : traits) {
       values.add(trait.asObject());
     }
-    return values;
+    return Collections.unmodifiableList(values);
   }
 
   @Override
-- 
2.43.0


From 2560922238a68d3f4ee8a2542ce859918a6338e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:02 +0000
Subject: [PATCH 12/21] fix: keep nested calls from sharing the thread-local
 builder

---
 .../java/io/fastprintf/FastPrintfImpl.java    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/FastPrintfImpl.java b/src/main/java/io/fastprintf/FastPrintfImpl.java
index 0533ce1..21317f6 100644
--- a/src/main/java/io/fastprintf/FastPrintfImpl.java
+++ b/src/main/java/io/fastprintf/FastPrintfImpl.java
@@ -33,6 +33,12 @@ final class FastPrintfImpl implements FastPrintf {
       this.stringBuilderFactory =
           requiredCapacity -> {
             StringBuilder builder = threadLocalBuilder.get();
+            if (builder == null) {
+              // The cached builder is in use by an outer call on this thread: an argument's
+              // own conversion code is formatting through the same instance.
+              return new StringBuilder(requiredCapacity);
+            }
+            threadLocalBuilder.set(null);
             int currentCapacity = builder.capacity();
 
             // This is the core logic:
@@ -48,7 +54,6 @@ final class FastPrintfImpl implements FastPrintf {
               // The buffer is too big and we don't need it this time.
               // Create a new, reasonably-sized builder and replace the old one.
               builder = new StringBuilder(requiredCapacity);
-              threadLocalBuilder.set(builder);
 
             } else {
               // In all other cases, we reuse the existing builder:
@@ -84,10 +89,16 @@ final class FastPrintfImpl implements FastPrintf {
     // OPTIMIZATION: Create the consumer ONCE.
     // This reduces allocation from O(N) to O(1) where N is the number of appenders.
     Consumer<Seq> consumer = seq -> seq.appendTo(builder);
-    for (Appender appender : appenders) {
-      appender.append(consumer, iterator);
+    try {
+      for (Appender appender : appenders) {
+        appender.append(consumer, iterator);
+      }
+      return builder.toString();
+    } finally {
+      if (threadLocalBuilder != null) {
+        threadLocalBuilder.set(builder);
+      }
     }
-    return builder.toString();
   }
 
   @Override
-- 
2.43.0


From 09d00d7f55d868516248e7f714576ae846468bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:02 +0000
Subject: [PATCH 13/21] fix: format java.sql.Date and java.sql.Time with %t

---
 src/main/java/io/fastprintf/traits/ObjectTraits.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/ObjectTraits.java b/src/main/java/io/fastprintf/traits/ObjectTraits.java
index 7412df5..a436d1b 100644
--- a/src/main/java/io/fastprintf/traits/ObjectTraits.java
+++ b/src/main/java/io/fastprintf/traits/ObjectTraits.java
@@ -5,6 +5,7 @@ import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import io.fastprintf.util.Utils;
 import java.lang.reflect.Array;
+import java.time.Instant;
 import java.time.temporal.TemporalAccessor;
 import java.util.Arrays;
 import java.util.Base64;
@@ -93,7 +94,8 @@ public final class ObjectTraits implements FormatTraits {
   @Override
   public TemporalAccessor asTemporalAccessor() {
     if (value instanceof Date) {
-      return ((Date) value).toInstant();
+      // java.sql.Date and java.sql.Time do not support toInstant().
+      return Instant.ofEpochMilli(((Date) value).getTime());
     }
     if (value instanceof Calendar) {
       return ((Calendar) value).toInstant();
-- 
2.43.0


From 1dc23c88efb07e59977bd9a2d6d8a997c7a2c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:02 +0000
Subject: [PATCH 14/21] fix: report instants beyond the millisecond range with
 PrintfException

---
 src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
index f2d4686..4dc1244 100644
--- a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
+++ b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
@@ -48,7 +48,7 @@ public final class TemporalAccessorTraits implements FormatTraits {
     try {
       // The most robust way to get epoch milliseconds is also via Instant.
       return Instant.from(value).toEpochMilli();
-    } catch (DateTimeException e) {
+    } catch (DateTimeException | ArithmeticException e) {
       throw new PrintfException("Can't get epoch milliseconds from: %s", value, e);
     }
   }
-- 
2.43.0


From 0804ed4b1b12721086a72d1b6bb408867b9a2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:02 +0000
Subject: [PATCH 15/21] fix: show instants in the system zone also when %t has
 a pattern

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index b880355..0247939 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -395,13 +395,11 @@ public final class SeqFormatter {
     DateTimeFormatter formatter = context.getDateTimeFormatter();
     TemporalAccessor temporalAccessor = traits.asTemporalAccessor();
 
+    if (temporalAccessor instanceof Instant) {
+      temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
+    }
     if (formatter == null) {
-      if (temporalAccessor instanceof Instant) {
-        temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
-        formatter = DateTimeFormatter.ISO_OFFSET_DATE_TIME;
-      } else {
-        formatter = bestDefaultFormatterOrThrow(temporalAccessor);
-      }
+      formatter = bestDefaultFormatterOrThrow(temporalAccessor);
     }
     Seq seq = Seq.wrap(formatter.format(temporalAccessor));
     return spaceJustify(context, seq);
-- 
2.43.0


From 04bfcc31469b360a8852a917fe54901bf9445c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:02 +0000
Subject: [PATCH 16/21] fix: report date/time values that cannot be shown with
 PrintfException

---
 .../io/fastprintf/appender/SeqFormatter.java  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 0247939..04143e1 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -9,6 +9,7 @@ import io.fastprintf.number.IntForm;
 import io.fastprintf.seq.Seq;
 import io.fastprintf.traits.FormatTraits;
 import io.fastprintf.traits.RefSlot;
+import java.time.DateTimeException;
 import java.time.Instant;
 import java.time.LocalDate;
 import java.time.LocalDateTime;
@@ -395,13 +396,17 @@ public final class SeqFormatter {
     DateTimeFormatter formatter = context.getDateTimeFormatter();
     TemporalAccessor temporalAccessor = traits.asTemporalAccessor();
 
-    if (temporalAccessor instanceof Instant) {
-      temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
-    }
-    if (formatter == null) {
-      formatter = bestDefaultFormatterOrThrow(temporalAccessor);
+    try {
+      if (temporalAccessor instanceof Instant) {
+        temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
+      }
+      if (formatter == null) {
+        formatter = bestDefaultFormatterOrThrow(temporalAccessor);
+      }
+      Seq seq = Seq.wrap(formatter.format(temporalAccessor));
+      return spaceJustify(context, seq);
+    } catch (DateTimeException e) {
+      throw new PrintfException("Cannot format date/time: " + e.getMessage(), e);
     }
-    Seq seq = Seq.wrap(formatter.format(temporalAccessor));
-    return spaceJustify(context, seq);
   }
 }
-- 
2.43.0


From f52e2c0ec316afbe7b2f2dc00c51932347fb3795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:22 +0000
Subject: [PATCH 17/21] fix: report every unusable date/time pattern as a
 syntax error

Some patterns, such as ppHd, make DateTimeFormatter throw a
ClassCastException, which escaped from compile.
---
 src/main/java/io/fastprintf/Compiler.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index 2683972..7cf4890 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -181,7 +181,8 @@ final class Compiler {
 
     try {
       return DateTimeFormatter.ofPattern(pattern);
-    } catch (IllegalArgumentException e) {
+    } catch (RuntimeException e) {
+      // e.g. "ppHd" makes DateTimeFormatter throw a ClassCastException
       throw new PrintfSyntaxException(
           "Invalid date/time pattern: '" + pattern + "'", source, patternStart, e);
     }
-- 
2.43.0


From e306778aa60078323878f7bd5994e4ab13072202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:09 +0000
Subject: [PATCH 18/21] fix: print decimals with a very large scale in %f
 without a huge division

---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index e5e96ec..6c43a30 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -161,7 +161,10 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale > precision) {
       // more "scale" digits than the requested "precision"
       int compPrec = value.precision();
-      if (compPrec <= scale) {
+      if ((long) scale - compPrec > precision) {
+        // less than a tenth of the last digit: avoid a division by a huge power of ten
+        value = BigDecimal.valueOf(0, precision);
+      } else if (compPrec <= scale) {
         // case of 0.xxxxxx
         value = value.setScale(precision, RoundingMode.HALF_UP);
       } else {
-- 
2.43.0


From 91e48ea6627968c5fa46583b516ba7f465484a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:15 +0000
Subject: [PATCH 19/21] fix: truncate pure decimal fractions to zero without a
 huge division

---
 src/main/java/io/fastprintf/traits/BigDecimalTraits.java | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/java/io/fastprintf/traits/BigDecimalTraits.java b/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
index 476b1e9..c7a6572 100644
--- a/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
+++ b/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
@@ -3,6 +3,7 @@ package io.fastprintf.traits;
 import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import java.math.BigDecimal;
+import java.math.BigInteger;
 
 public final class BigDecimalTraits implements FormatTraits {
 
@@ -14,6 +15,10 @@ public final class BigDecimalTraits implements FormatTraits {
 
   @Override
   public IntForm asIntForm() {
+    if (value.precision() <= value.scale()) {
+      // A pure fraction: toBigInteger() would divide by a possibly huge power of ten
+      return IntForm.valueOf(BigInteger.ZERO);
+    }
     return IntForm.valueOf(value.toBigInteger());
   }
 
-- 
2.43.0


From 019c8eeda67bee4ed5cfc90f22deb817dee134d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:52:17 +0000
Subject: [PATCH 20/21] fix: print decimals whose scale is near the int limit
 with %e and %g

Rounding such a decimal to the requested digits could move its scale out of
the int range, and the call failed with an ArithmeticException.  The digits
are now rounded on their own and the scale is added afterwards as a long.
---
 .../fastprintf/number/BigDecimalWrapper.java  | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 6c43a30..e2b36ab 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -30,9 +30,7 @@ public final class BigDecimalWrapper implements FloatForm {
     return mant;
   }
 
-  private static FloatLayout scientificLayout0(BigDecimal value) {
-    BigInteger unscaledValue = value.unscaledValue();
-    int scale = value.scale();
+  private static FloatLayout scientificLayout0(BigInteger unscaledValue, long scale) {
     String unscaledString = unscaledValue.toString();
     int length = unscaledString.length();
     if (scale == 0) {
@@ -50,7 +48,7 @@ public final class BigDecimalWrapper implements FloatForm {
     } else {
       mant = Seq.wrap(unscaledString);
     }
-    long adjusted = -(long) scale + (length - 1);
+    long adjusted = -scale + (length - 1);
     Seq exp;
     if (adjusted != 0) {
       long abs = Math.abs(adjusted);
@@ -112,14 +110,10 @@ public final class BigDecimalWrapper implements FloatForm {
 
   @Override
   public FloatLayout generalLayout(int precision) {
-    BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
-    BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
     // As in C, the style depends on the value after rounding to the requested precision.
-    BigDecimal rounded = value.round(new MathContext(precision));
-    if ((value.equals(BigDecimal.ZERO))
-        || ((rounded.compareTo(tenToTheNegFour) >= 0) && (rounded.compareTo(tenToThePrec) < 0))) {
-
-      int e = -rounded.scale() + (rounded.unscaledValue().toString().length() - 1);
+    BigDecimal rounded = new BigDecimal(value.unscaledValue(), new MathContext(precision));
+    long e = rounded.precision() - 1L - rounded.scale() - value.scale();
+    if (e >= -4 && e < precision) {
 
       // xxx.yyy
       //   g precision (# sig digits) = #x + #y
@@ -131,7 +125,7 @@ public final class BigDecimalWrapper implements FloatForm {
       //   f precision = #0 (after '.') + #z
       //   exponent = - #0 (after '.') - 1
       // => f precision = g precision - exponent - 1
-      precision = precision - e - 1;
+      precision = (int) (precision - e - 1);
       return decimalLayout(precision);
     } else {
       return scientificLayout(precision - 1);
@@ -150,8 +144,9 @@ public final class BigDecimalWrapper implements FloatForm {
       compPrec = precision + 1;
     }
     MathContext mc = new MathContext(compPrec);
-    BigDecimal v = new BigDecimal(value.unscaledValue(), scale, mc);
-    return scientificLayout0(v);
+    // The scale is added afterwards, as rounding could take it out of the int range.
+    BigDecimal v = new BigDecimal(value.unscaledValue(), mc);
+    return scientificLayout0(v.unscaledValue(), (long) scale + v.scale());
   }
 
   @Override
-- 
2.43.0


From 8d3a53b0729dd6c6535379d6b6b1c8d4952e4602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:00:29 +0000
Subject: [PATCH 21/21] fix: keep the sub-millisecond digits of
 java.sql.Timestamp with %t

---
 src/main/java/io/fastprintf/traits/ObjectTraits.java | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/traits/ObjectTraits.java b/src/main/java/io/fastprintf/traits/ObjectTraits.java
index a436d1b..968f607 100644
--- a/src/main/java/io/fastprintf/traits/ObjectTraits.java
+++ b/src/main/java/io/fastprintf/traits/ObjectTraits.java
@@ -94,8 +94,13 @@ public final class ObjectTraits implements FormatTraits {
   @Override
   public TemporalAccessor asTemporalAccessor() {
     if (value instanceof Date) {
-      // java.sql.Date and java.sql.Time do not support toInstant().
-      return Instant.ofEpochMilli(((Date) value).getTime());
+      Date date = (Date) value;
+      try {
+        return date.toInstant();
+      } catch (UnsupportedOperationException e) {
+        // java.sql.Date and java.sql.Time do not support toInstant().
+        return Instant.ofEpochMilli(date.getTime());
+      }
     }
     if (value instanceof Calendar) {
       return ((Calendar) value).toInstant();
-- 
2.43.0

